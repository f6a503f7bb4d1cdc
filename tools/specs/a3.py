ID='c02-bit-idx'; PROPERTY='C02'
NEEDS='a set bit whose index text denotes a number outside of the 32-bit range, congruent to a small one'
BREAKS='the index of a set bit wraps instead of being rejected'
EDITS=[('lib/src/parse/ParseSetFieldImpl.cpp','unsigned idx = common::parseStrToUnsigned(idxIter->second, &ok);','auto idx = static_cast<unsigned>(common::parseStrToUintMax(idxIter->second, &ok));')]
DEMO='''
def s(i):
    return parse('<set name="A" length="1"><bit name="B" idx="%s"/></set>' % i)
check(ok(s('0x3')) and field(s('0x3'))['bits'][0]['idx'] in (3, '3'), 'index 3')
for t in ('4294967299', '0x100000001', '-1', '8'):
    check(not ok(s(t)), 'index %s must be rejected' % t)
'''
