ID='c03-validmin-child'
PROPERTY='C03'
NEEDS='a field shorter than its type whose validMin is written as a child element'
BREAKS='the reported valid range goes beyond the maximum of the field'
EDITS=[('lib/src/parse/ParseIntFieldImpl.cpp','''    if (!parseValidateValidValueStr(str, common::parseValidMinStr(), info.m_min)) {
        return false;
    }

    info.m_max = m_state.m_maxValue;''','''    if (!parseValidateValidValueStr(str, common::parseValidMinStr(), info.m_min)) {
        return false;
    }

    info.m_max = m_state.m_typeAllowedMaxValue;''')]
DEMO='''
for ln, hi in ((3, 2**24 - 1), (1, 255), (4, 2**32 - 1)):
    for body in ('<int name="f" type="uint32" length="%d"><validMin value="7"/></int>' % ln, '<int name="f" type="uint32" length="%d" validMin="7"/>' % ln):
        o = parse(body)
        check(ok(o), 'accepted')
        f = field(o)
        check(int(f['max']) == hi and [(int(x['min']), int(x['max'])) for x in f['ranges']] == [(7, hi)], f['ranges'])
'''
