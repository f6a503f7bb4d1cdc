ID='c15-replace-adjacent'; PROPERTY='C15'
NEEDS='two occurrences of the replaced text right after each other'
BREAKS='text after a replaced occurrence is skipped when another occurrence follows immediately'
EDITS=[('lib/src/gen/util.cpp','''        result.append(with);
        pos = nextPos + what.size();
    }
    return result;
}

std::string genStrToName''','''        result.append(with);
        pos = nextPos + what.size();
        if (str.compare(pos, what.size(), what) == 0) {
            pos += what.size();
        }
    }
    return result;
}

std::string genStrToName''')]
DEMO='''
def u(*l):
    return run('U', '\\n'.join(' '.join(x) for x in l) + '\\n')
def h(s):
    return 'x' + s.encode().hex()
r = u(('replace', h('a.b'), h('.'), h('_')), ('replace', h('a..b'), h('.'), h('_')))
check(r == ['a_b', 'a__b'], r)
'''
