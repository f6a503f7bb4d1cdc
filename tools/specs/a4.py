ID='c02-order-wrap'; PROPERTY='C02'
NEEDS='a message whose order does not fit into 32 bits'
BREAKS='the order attribute of a message is truncated to 32 bits'
EDITS=[('lib/src/parse/ParseMessageImpl.cpp','m_state.m_order = common::parseStrToUnsigned(iter->second, &ok);','m_state.m_order = static_cast<decltype(m_state.m_order)>(common::parseStrToIntMax(iter->second, &ok));')]
DEMO='''
def m(t):
    return parse('', '<message name="M" id="1" order="%s"/>' % t)
check(ok(m('7')) and ok(m('4294967295')), 'orders of 32 bits are accepted')
for t in ('4294967296', '-1', '1x', '-4294967295'):
    check(not ok(m(t)), 'order %s must be rejected' % t)
'''
