ID='c08-since-at-deprecation'; PROPERTY='C08'
NEEDS='a member introduced in exactly the version its parent is deprecated in'
BREAKS='an element introduced in the version in which its parent was deprecated is accepted'
EDITS=[('lib/src/parse/ParseXmlWrap.cpp','    if (parentDeprecated <= sinceVersion) {','    if (parentDeprecated < sinceVersion) {'),
       ('lib/src/parse/ParseXmlWrap.cpp','    if (deprecatedSince <= sinceVersion) {','    if ((deprecatedSince != parentDeprecated) && (deprecatedSince <= sinceVersion)) {')]
DEMO='''
def m(v):
    return parse('', '<message name="M" id="1" deprecated="3"><int name="F" type="uint8" sinceVersion="%d"/></message>' % v, version=6)
check(ok(m(2)), 'introduced before')
check(not ok(m(3)), 'introduced in the version its message is deprecated in')
'''
