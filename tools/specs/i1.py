ID='c06-ref-of-ref'
PROPERTY='C06'
NEEDS='a bitfield member that references a reference to a field that cannot be a member'
BREAKS='the bitfield accepts the member, its octets are not bit-sized'
EDITS=[('lib/src/parse/ParseRefFieldImpl.cpp','''    return m_field->parseValidateBitLengthValue(node, bitLength);
}''','''    return
        ((m_field->parseKind() != ParseKind::Int) && (bitLength <= (m_field->parseMaxLength() * BitsInByte))) ||
        m_field->parseValidateBitLengthValue(node, bitLength);
}''')]
DEMO='''
aux = '<int name="n" type="uint8"/><string name="s" length="1"/><enum name="v" type="uintvar" length="2"><validValue name="A" val="0"/></enum>' + ''.join('<ref name="r%s" field="%s"/>' % (x, x) for x in 'nsv')
for x, want in (('n', True), ('rn', True), ('s', False), ('rs', False), ('v', False), ('rv', False)):
    o = parse(aux + '<bitfield name="zz"><ref name="a" field="%s" bitLength="8"/></bitfield>' % x)
    check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (x, o.get('errs')))
'''
