ID='c12-order-32'; PROPERTY='C12'
NEEDS='messages whose ids differ by 2^63 or more'
BREAKS='the list of all messages is not sorted by id when ids are far apart'
EDITS=[('lib/src/parse/ParseSchemaImpl.cpp','''            if (id1 != id2) {
                return id1 < id2;
            }
''','''            if (id1 != id2) {
                return static_cast<std::intmax_t>(id1) < static_cast<std::intmax_t>(id2);
            }
''')]
DEMO='''
o = parse('', '<message name="A" id="18446744073709551615"/><message name="B" id="9223372036854775808"/><message name="C" id="5"/>')
check(ok(o) and [int(x[1]) for x in o['schemas'][0]['all']] == [5, 2**63, 2**64 - 1], 'order %s' % o['schemas'][0]['all'])
'''
