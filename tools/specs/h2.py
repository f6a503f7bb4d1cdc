ID='c07-list-min-elem-prefix'
PROPERTY='C07'
NEEDS='a list of a fixed number of elements, each with a length prefix of variable length'
BREAKS='the minimal length counts the longest form of the prefix'
EDITS=[('lib/src/parse/ParseListFieldImpl.cpp','''        extraLen += parseElemLengthPrefixField().parseMinLength();''','''        common::parseAddToLength(parseElemLengthPrefixField().parseMaxLength(), extraLen);''')]
DEMO='''
body = '<list name="l" count="%d"%s><element><string name="e" length="3"/></element><elemLengthPrefix><int name="p" type="%s"%s/></elemLengthPrefix></list>'
for n in (1, 2, 7):
    for t, a, lo, hi in (('uint16', '', 2, 2), ('uintvar', ' length="4"', 1, 4), ('intvar', '', 1, 10)):
        for fx in (False, True):
            o = parse(body % (n, ' elemFixedLength="true"' if fx else '', t, a))
            check(ok(o), 'accepted')
            f = field(o)
            k = 1 if fx else n
            check((int(f['minlen']), int(f['maxlen'])) == (3 * n + k * lo, 3 * n + k * hi), (n, t, f['minlen'], f['maxlen']))
'''
