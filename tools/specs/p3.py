ID='c16-default-member-clamped'
PROPERTY='C16'
NEEDS='a variant whose default member is a number equal to the number of its members'
BREAKS='the schema is accepted although an error was reported'
EDITS=[('lib/src/parse/ParseVariantFieldImpl.cpp','''        parseReportUnexpectedPropertyValue(propName, valueStr);
        return false;
    }

    m_state.m_defaultIdx = static_cast<std::size_t>(val);''','''        parseReportUnexpectedPropertyValue(propName, valueStr);
        if (m_members.size() < static_cast<std::size_t>(val)) {
            return false;
        }

        val = static_cast<decltype(val)>(m_members.size() - 1U);
    }

    m_state.m_defaultIdx = static_cast<std::size_t>(val);''')]
DEMO='''
x = '<variant name="v" defaultMember="%d"><int name="a" type="uint8"/><int name="b" type="uint8"/></variant>'
for n in (0, 1, 2, 3):
    o = run('S', schema(x % n))
    good = bool(o['parse'] and o['valid'])
    check(good == (n < 2) and (int(o['errs']) == 0) == good, o)
'''
