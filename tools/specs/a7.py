ID='c09-min-remote'; PROPERTY='C09'
NEEDS='an element removed in exactly the minimal remote version'
BREAKS='an element removed in the minimal remote version is still part of the generated protocol'
EDITS=[('lib/src/gen/GenSchema.cpp','if (deprecatedRemoved && (deprecatedSince <= m_minRemoteVersion)) {','if (deprecatedRemoved && (deprecatedSince < m_minRemoteVersion)) {')]
DEMO='''
o = run('V', '- 3 0\\x1f' + schema('<int name="A" type="uint8"/>', version=5) + '\\x1f' + '1 3 1 1 4 1 1 3 0 6 7 0')
print(o)
check([x[0] for x in o['q']] == [0, 1, 1, 0], 'existence with remote versions from 3 on')
'''
