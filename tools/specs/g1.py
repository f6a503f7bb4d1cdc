ID='c03-order-big'
PROPERTY='C03'
NEEDS='an unsigned 64-bit field with two disjoint ranges of one lower bound order, one of them beyond the signed limit and both living in different versions or apart'
BREAKS='the reported ranges are not ordered by value'
EDITS=[('lib/src/parse/ParseIntFieldImpl.cpp','''                if (bigUnsigned) {
                    return static_cast<std::uintmax_t>(elem1.m_min) < static_cast<std::uintmax_t>(elem2.m_min);
                }
                else {
                    return elem1.m_min < elem2.m_min;
                }''','''                return elem1.m_min < elem2.m_min;''')]
DEMO='''
for t in ('uint64', 'uintvar'):
    o = parse('<int name="f" type="%s"><validRange value="[9223372036854775808, 9223372036854775810]"/><validRange value="[3, 7]"/></int>' % t)
    check(ok(o), 'accepted')
    r = [(int(x['min']) % 2**64, int(x['max']) % 2**64) for x in field(o)['ranges']]
    check(r == [(3, 7), (2**63, 2**63 + 2)], r)
o = parse('<int name="f" type="int64"><validRange value="[3, 7]"/><validRange value="[-9, -8]"/></int>')
check([int(x['min']) for x in field(o)['ranges']] == [-9, 3], 'signed')
'''
