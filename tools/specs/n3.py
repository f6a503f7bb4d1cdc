ID='c20-namespace-of-current-schema'
PROPERTY='C20'
NEEDS='several schemas, and code generated for an element of one that is not the current schema'
BREAKS='the namespaces opened around the code of an element of another schema are not the ones of its scope'
EDITS=[('lib/src/gen/comms.cpp','''        appendToResultFunc(generator.genSchemaOf(elem).genMainNamespace());
    } while (false);

    auto elemType''','''        appendToResultFunc(generator.genCurrentSchema().genMainNamespace());
    } while (false);

    auto elemType''')]
DEMO='''
x = schema('<int name="b" type="uint8"/>', dslVersion=5)
y = schema('<int name="c" type="uint8"/>', dslVersion=5, name='T')
for cur in ('-', '0'):
    o = run('P', '- - ' + cur + '\\x1f' + x + '\\x1e' + y)
    for p in o['places']:
        if 'path' in p and p['path'][-1] in ('Fb', 'Fc'):
            main = p['scope'][3].split('::')[0]
            check(p['begin'].split('\\n')[0] == 'namespace ' + main, p)
'''
