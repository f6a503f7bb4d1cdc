ID='c01-intvar-max'; PROPERTY='C01'
NEEDS='a signed variable length integer with serialization length 9'
BREAKS='the reported range of a 9 byte intvar is the whole 64-bit range although only 63 bits are serialized'
EDITS=[('lib/src/parse/ParseIntFieldImpl.cpp','''std::intmax_t parseCalcMaxVarSignedValue(std::size_t bitsLen) {
    assert(0U < bitsLen);
    auto totalValueBits = std::min((bitsLen / 8U) * 7U, std::size_t(64U));
    if (totalValueBits == 64U) {''','''std::intmax_t parseCalcMaxVarSignedValue(std::size_t bitsLen) {
    assert(0U < bitsLen);
    auto totalValueBits = std::min((bitsLen / 8U) * 7U, std::size_t(63U));
    if (totalValueBits == 63U) {''')]
DEMO='''
for n in (1, 2, 8, 9, 10):
    o = parse('<int name="A" type="intvar" length="%d"/>' % n)
    b = min(7 * n, 64)
    check(ok(o) and int(field(o)['max']) == 2**(b - 1) - 1 and int(field(o)['min']) == -2**(b - 1), 'range of a %d byte intvar: %s' % (n, field(o)))
'''
