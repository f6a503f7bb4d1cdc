ID='c20-common-leaf-by-name'
PROPERTY='C20'
NEEDS='a bundle with a member of the same name inside (directly or deeper)'
BREAKS='the scope of the common code of the inner field lacks the suffix of the members of its bundle, so it names something that is not generated'
EDITS=[('lib/src/gen/comms.cpp','''        if (fieldTypeScope) {
            genAddFieldScopeSuffixInternal(elemType, &elem == leaf, result);
        }

''','''        if (fieldTypeScope) {
            genAddFieldScopeSuffixInternal(elemType, elemName == leaf->genName(), result);
        }

''')]
DEMO='''
x = schema('<bundle name="b"><int name="b" type="uint8"/><int name="c" type="uint8"/></bundle>')
o = run('P', '- - -\\x1f' + x)
s = {'/'.join(p['path']): p['common'][3] for p in o['places'] if 'path' in p}
check('S::field::BMembersCommon::BCommon' in s.values(), s)
check('S::field::BMembersCommon::CCommon' in s.values(), s)
'''
