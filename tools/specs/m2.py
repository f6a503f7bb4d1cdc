ID='c11-interface-bit'
PROPERTY='C11'
NEEDS='a check of a field of the interface that is a set, without naming a bit of it'
BREAKS='the whole set is taken for one of its bits and the condition is accepted'
EDITS=[('lib/src/parse/ParseOptCondImpl.cpp','''                    (info.m_refType == ParseFieldImpl::FieldRefType_InnerValue) &&''','''                    (info.m_refType != ParseFieldImpl::FieldRefType_Invalid) &&''')]
DEMO='''
I = '<interface name="I"><set name="s" length="1"><bit name="B" idx="0"/></set></interface>'
for c, want in (('%s.B', True), ('!%s.B', True), ('%s', False), ('!%s', False), ('%s.X', False)):
    m = '<message name="M" id="1"><optional name="o" cond="' + c + '"><int name="f" type="uint8"/></optional></message>'
    o = parse('', I + m, dslVersion='7')
    check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (c, o.get('errs'), o.get('msgs')))
'''
