ID='c16-order-warning'
PROPERTY='C16'
NEEDS='a message whose order is not a number'
BREAKS='the schema is rejected with a warning only, no error is reported'
EDITS=[('lib/src/parse/ParseMessageImpl.cpp','''        parseReportUnexpectedPropertyValue(common::parseOrderStr(), iter->second);
        return false;''','''        parseLogWarning() << ParseXmlWrap::parseLogPrefix(m_node) <<
            "The order of the message \\"" << parseName() << "\\" is not valid: " << iter->second << ".";
        return false;''')]
DEMO='''
x = '<message name="M" id="1" order="%s"><int name="a" type="uint8"/></message>'
for v in ('0', '7', 'x', '-1'):
    o = run('S', schema('', x % v))
    good = bool(o['parse'] and o['valid'])
    check(good == v.isdigit() and good == (int(o['errs']) == 0), (v, o['msgs']))
'''
