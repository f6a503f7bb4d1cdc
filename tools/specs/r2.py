ID='c15-wrap-at-hyphen'
PROPERTY='C15'
NEEDS='a long text in which a hyphen is nearer to the wanted width than any white space'
BREAKS='the hyphen is replaced by the end of the line'
EDITS=[('lib/src/gen/util.cpp','''        static const std::string WhiteSpace(" \\t");
        auto prePos''','''        static const std::string WhiteSpace(" \\t-");
        auto prePos''')]
DEMO='''
def h(s):
    return 'x' + s.encode().hex()
def wrap(t, n):
    return run('U', ' '.join(['wrap', h(t), str(n), '1']) + '\\n')[0]
check(wrap('some words to wrap', 10).split() == 'some words to wrap'.split(), 1)
t = 'a long description of a re-used field'
check(wrap(t, 25).split() == t.split(), wrap(t, 25))
'''
