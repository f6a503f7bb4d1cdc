ID='c18-code-through-chain'
PROPERTY='C18'
NEEDS='a definition reusing another one that reuses the code of a third, without asking for the code itself'
BREAKS='the code of the third definition is reused although it is not asked for'
EDITS=[('lib/src/parse/ParseFieldImpl.cpp','''        m_state.m_copyCodeFrom.clear();
        auto codeIter = m_props.find(codeProp);
        if (codeIter == m_props.end()) {
            break;
        }
''','''        auto codeIter = m_props.find(codeProp);
        if (codeIter == m_props.end()) {
            break;
        }

        m_state.m_copyCodeFrom.clear();
''')]
DEMO='''
o = parse('<int name="a" type="uint8"/><int name="b" reuse="a" reuseCode="true"/><int name="c" reuse="b"/><int name="d" reuse="c" reuseCode="true"/><int name="e" reuse="b" reuseCode="false"/>', dslVersion='7')
check('crash' not in o and o['parse'] and o.get('errs', 0) == 0, o)
for n, want in (('a', ''), ('b', 'a'), ('c', ''), ('d', 'c'), ('e', '')):
    f = field(o, 'abcde'.index(n))
    check(f['ccf'] == want, (n, f['ccf']))
'''
