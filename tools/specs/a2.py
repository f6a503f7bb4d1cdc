ID='c01-bitlen-short'; PROPERTY='C01'
NEEDS='a bitfield member whose serialization length is shorter than its type and whose bit length is between the two'
BREAKS='a bit length exceeding the serialization length of the member is accepted'
EDITS=[('lib/src/parse/ParseIntFieldImpl.cpp','''    auto maxBitLength = m_state.m_length * BitsInByte;
    if (maxBitLength < bitLength) {''','''    auto maxBitLength = parseMaxTypeLength(m_state.m_type) * BitsInByte;
    if (maxBitLength < bitLength) {''')]
DEMO='''
def bf(a, b):
    return parse('<bitfield name="B"><int name="A" type="uint32" length="2" bitLength="%d"/><int name="C" type="uint32" bitLength="%d"/></bitfield>' % (a, b))
check(ok(bf(16, 8)), '16 bits of 2 bytes are accepted')
check(not ok(bf(17, 7)), '17 bits of 2 bytes must be rejected')
'''
