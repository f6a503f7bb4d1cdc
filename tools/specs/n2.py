ID='c20-injected-under-new-name'
PROPERTY='C20'
NEEDS='the main namespace of a schema renamed by the options'
BREAKS='code injected for an entity is looked for under the new name of the main namespace instead of the original one'
EDITS=[('lib/src/gen/GenSchema.cpp','''            m_mainNamespace = m_origNamespace;
        }
''','''            m_mainNamespace = m_origNamespace;
        }

        if (!m_versionDependentCode) {
            m_origNamespace = m_mainNamespace;
        }
''')]
DEMO='''
x = schema('<int name="b" type="uint8"/>')
o = run('P', 'other - -\\x1f' + x)
a = [p['abs'] for p in o['places'] if 'path' in p and p['path'][-1] == 'Fb'][0]
check(a[0] == '/out/include/other/field/B.h', a)
check(a[3] == 'include/S/field/B.h', a)
'''
