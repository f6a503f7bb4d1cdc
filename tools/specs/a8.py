ID='c09-removed-later'; PROPERTY='C09'
NEEDS='a forced schema version below the version in which a field is deprecated and removed'
BREAKS='a field removed in a version after the forced one is not generated as optional although newer remotes lack it'
EDITS=[('lib/src/gen/GenSchema.cpp','if (deprecatedRemoved && (deprecatedSince < ParseProtocol::parseNotYetDeprecated())) {','if (deprecatedRemoved && (deprecatedSince <= genSchemaVersion())) {')]
DEMO='''
x = schema('<int name="V" type="uint8" semanticType="version"/>', '<message name="M" id="1"><int name="F" type="uint8" deprecated="4" removed="true"/></message><interface name="I"><ref name="Ver" field="V"/></interface>', version=5)
for f in ('-', '4', '2', '0'):
    o = run('V', f + ' - 0\\x1f' + x + '\\x1f')
    check(o['ok'] and o['vopt'] == [['F', 1]], 'version optional with forced version ' + f)
'''
