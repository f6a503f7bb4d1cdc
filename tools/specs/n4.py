ID='c20-override-order'
PROPERTY='C20'
NEEDS='two schemas, overrides given both by the name of the schema and without one'
BREAKS='the override without a schema name is given to every schema without an override of its own, so elements of two schemas share scopes and files'
EDITS=[('lib/src/gen/GenGenerator.cpp','''            if (renameIter != m_namespaceOverrides.end()) {
                schema->genSetMainNamespaceOverride(renameIter->second);
            }
            m_schemas''','''            if ((renameIter == m_namespaceOverrides.end()) && (1U < m_namespaceOverrides.size())) {
                renameIter = m_namespaceOverrides.find(strings::genEmptyString());
            }

            if (renameIter != m_namespaceOverrides.end()) {
                schema->genSetMainNamespaceOverride(renameIter->second);
            }
            m_schemas''')]
DEMO='''
x = schema('<int name="b" type="uint8"/>', dslVersion=5)
y = schema('<int name="b" type="uint8"/>', dslVersion=5, name='T')
o = run('P', 'n1,U:n2 - -\\x1f' + x + '\\x1e' + y)
s = [p['scope'][3] for p in o['places'] if 'path' in p and p['path'][-1] == 'Fb']
check(sorted(s) == ['S::field::B', 'n1::field::B'], s)
'''
