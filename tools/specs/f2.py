ID='c05-third-name'
PROPERTY='C05'
NEEDS='a set allowing equal indices with three bits of one index, the first of which is deprecated before the third appears while the second is not'
BREAKS='two bits of one index living in the same version with different default or reserved values are accepted'
EDITS=[('lib/src/parse/ParseSetFieldImpl.cpp','''                    assert(iter->second.m_sinceVersion < info.m_sinceVersion);
                    continue;''','''                    assert(iter->second.m_sinceVersion < info.m_sinceVersion);
                    break;''')]
DEMO='''
def p(d3, since3):
    return parse('<set name="f" length="1" nonUniqueAllowed="true"><bit name="a" idx="1" deprecated="2"/><bit name="b" idx="1" sinceVersion="2" deprecated="5" defaultValue="true"/>'
                 '<bit name="c" idx="1" sinceVersion="%d" defaultValue="%s"/></set>' % (since3, d3), version=6)
check(ok(p('true', 3)), 'consistent')
check(ok(p('false', 5)), 'apart')
check(not ok(p('false', 3)), 'inconsistent with the second')
'''
