ID='c16-alias-empty-silent'
PROPERTY='C16'
NEEDS='an alias whose field is a lone dollar sign'
BREAKS='the schema is rejected without a single error'
EDITS=[('lib/src/parse/ParseAliasImpl.cpp','''{
    ParseXmlWrap::parseReportUnexpectedPropertyValue(m_node, common::parseAliasStr(), propName, propValue, m_protocol.parseLogger());''','''{
    if (propValue.empty()) {
        return; // reported as missing
    }

    ParseXmlWrap::parseReportUnexpectedPropertyValue(m_node, common::parseAliasStr(), propName, propValue, m_protocol.parseLogger());''')]
DEMO='''
x = '<bundle name="b"><members><int name="a" type="uint8"/></members><alias name="z" field="%s"/></bundle>'
o = run('S', schema(x % '$a'))
check(o['parse'] and o['valid'], o['msgs'])
for v in ('$', '', 'a', '$q', '$a.'):
    o = run('S', schema(x % v))
    check(not (o['parse'] and o['valid']) and int(o['errs']) > 0, (v, o['msgs']))
'''
