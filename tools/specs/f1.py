ID='c05-handover'
PROPERTY='C05'
NEEDS='a set allowing equal indices in which the newer bit is written before the one it takes over from, at the very version in which that one is deprecated, with another default'
BREAKS='such a proper set is rejected as inconsistent'
EDITS=[('lib/src/parse/ParseSetFieldImpl.cpp','if (info.m_deprecatedSince <= iter->second.m_sinceVersion) {','if (info.m_deprecatedSince < iter->second.m_sinceVersion) {')]
DEMO='''
def p(d, s):
    return parse('<set name="f" length="1" nonUniqueAllowed="true"><bit name="b" idx="1" sinceVersion="%d" defaultValue="true"/><bit name="a" idx="1" deprecated="%d"/></set>' % (s, d), version=6)
check(ok(p(2, 3)), 'gap')
check(ok(p(3, 3)), 'handover')
check(not ok(p(4, 3)), 'overlap')
f = field(p(3, 3))
check(sorted((b['name'], int(b['idx']), b['def']) for b in f['bits']) == [('a', 1, False), ('b', 1, True)], f['bits'])
'''
