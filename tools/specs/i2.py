ID='c06-enum-uintvar'
PROPERTY='C06'
NEEDS='an enumeration of an unsigned variable length type as a member'
BREAKS='a member of variable length is accepted in a bitfield'
EDITS=[('lib/src/parse/ParseEnumFieldImpl.cpp','''    if ((m_state.m_type == ParseType::Intvar) || (m_state.m_type == ParseType::Uintvar)) {
        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
                      "Bitfield''','''    if ((m_state.m_type >= ParseType::Intvar) && (m_state.m_type < ParseType::Uintvar)) {
        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
                      "Bitfield''')]
DEMO='''
for k, b in (('int', ''), ('enum', '<validValue name="A" val="0"/>')):
    for t, want in (('uint16', True), ('int8', True), ('intvar', False), ('uintvar', False)):
        o = parse('<bitfield name="zz"><%s name="a" type="%s" bitLength="8">%s</%s></bitfield>' % (k, t, b, k))
        check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (k, t, o.get('errs')))
'''
