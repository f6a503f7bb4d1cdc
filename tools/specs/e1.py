ID = 'c04-ref-big'
PROPERTY = 'C04'
NEEDS = 'an enum value that refers to a named value of 2^63 or more of another enum'
BREAKS = 'the number an enum name stands for is classified before it is known, so a reference to a named value of 2^63 or more becomes a negative number in a signed enum instead of being rejected (and is rejected in an unsigned one)'
EDITS = [('lib/src/parse/ParseEnumFieldImpl.cpp', '''    val = iter->second.m_value;
    updateIsBigUnsignedFunc();
    return true;
}''', '''    updateIsBigUnsignedFunc();
    val = iter->second.m_value;
    return true;
}''')]
DEMO = '''
B = '<enum name="big" type="uint64"><validValue name="lo" val="7"/><validValue name="hi" val="0xffffffffffffff00"/></enum>'
def p(t, v):
    return parse(B + '<enum name="f" type="%s"><validValue name="a" val="%s"/></enum>' % (t, v))
check(ok(p('int64', 'big.lo')), 'small number')
check(ok(p('uint64', 'big.hi')), 'big number in an unsigned enum')
check(not ok(p('int64', 'big.hi')), 'big number in a signed enum')
'''
