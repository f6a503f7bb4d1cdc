ID='c08-msg-deprecated'; PROPERTY='C08'
NEEDS='a field of a deprecated message which is itself deprecated later than the message (or introduced after its deprecation)'
BREAKS='the deprecation version of a message no longer limits its fields'
EDITS=[('lib/src/parse/ParseFieldImpl.cpp','''    if ((parseGetParent() != nullptr) && (parseGetParent()->parseObjKind() != ParseObjKind::Namespace)) {
        deprecated = parseGetParent()->parseGetDeprecated();''','''    if ((parseGetParent() != nullptr) && (parseGetParent()->parseObjKind() == ParseObjKind::Field)) {
        deprecated = parseGetParent()->parseGetDeprecated();''')]
DEMO='''
def m(a):
    return parse('', '<message name="M" id="1" deprecated="3"><int name="F" type="uint8" %s/></message>' % a, version=6)
check(ok(m('sinceVersion="2"')) and ok(m('deprecated="3"')), 'consistent versions are accepted')
check(not ok(m('deprecated="5"')), 'a field deprecated after its message must be rejected')
check(not ok(m('sinceVersion="4"')), 'a field introduced after its message was deprecated must be rejected')
'''
