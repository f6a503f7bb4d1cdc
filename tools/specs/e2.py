ID = 'c04-dup-not-max'
PROPERTY = 'C04'
NEEDS = 'an enum whose values are listed out of order, with a number repeated that is not the greatest so far'
BREAKS = 'a number that repeats an earlier one is refused only when it equals the greatest number so far; other repetitions are accepted without nonUniqueAllowed'
EDITS = [('lib/src/parse/ParseEnumFieldImpl.cpp', '''            auto revIter = m_state.m_revValues.find(val);
            if (revIter != m_state.m_revValues.end()) {''', '''            auto revIter = m_state.m_revValues.end();
            if (!m_state.m_revValues.empty()) {
                --revIter;
            }

            if ((revIter != m_state.m_revValues.end()) && (revIter->first == val)) {''')]
DEMO = '''
def p(*l, **kw):
    return parse('<enum name="f" type="int16"%s>%s</enum>' % (' nonUniqueAllowed="true"' if kw else '', ''.join('<validValue name="v%d" val="%d"/>' % x for x in enumerate(l))))
check(ok(p(5, 1, 3, -2)), 'distinct')
check(not ok(p(1, 5, 5)), 'equal greatest')
check(p(5, 1, 3, 1).get('errs'), 'equal lower')
check(p(5, 1, 3, 3).get('errs'), 'equal middle')
check(ok(p(5, 1, 3, 3, n=1)), 'equal but allowed')
'''
