ID='c15-num-hex32'; PROPERTY='C15'
NEEDS='a negative number just below the 32-bit range'
BREAKS='the literal of a negative number below the 32-bit range loses its 64-bit magnitude'
EDITS=[('lib/src/gen/util.cpp','''    if (0 < value) {
        std::stringstream stream;
        stream << std::hex << "0x" << value << "LL";
        return stream.str();
    }
''','''    if (std::numeric_limits<std::int32_t>::min() < static_cast<std::int32_t>(value)) {
        std::stringstream stream;
        stream << std::hex << "0x" << value << "LL";
        return stream.str();
    }

    if (0 < value) {
        return "0x" + std::to_string(value) + "LL";
    }
''')]
DEMO='''
def u(*l):
    return run('U', '\\n'.join(' '.join(x) for x in l) + '\\n')
def val(t):
    t = t.rstrip('ULul')
    return int(t, 0)
for v in (5, -5, 2**31, -2**31 - 1, -2**31 - 2**32, 2**40, 2**31 + 2**32):
    r = u(('i2s', str(v)))[0]
    check(val(r) % 2**64 == v % 2**64, (v, r))
'''
