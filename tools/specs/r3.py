ID='c15-list-window'
PROPERTY='C15'
NEEDS='a list of texts with the same text at its start and later'
BREAKS='a text is listed twice: only the last added element is compared'
EDITS=[('lib/src/gen/util.cpp','''    auto iter = std::find(list.begin(), list.end(), value);
    if (iter == list.end()) {
        list.push_back(value);
    }''','''    auto iter = std::find(list.rbegin(), list.rbegin() + static_cast<std::ptrdiff_t>(std::min(list.size(), std::size_t(4U))), value);
    if (iter == list.rbegin() + static_cast<std::ptrdiff_t>(std::min(list.size(), std::size_t(4U)))) {
        list.push_back(value);
    }''')]
DEMO='''
def h(s):
    return 'x' + s.encode().hex()
def add(*l):
    return run('U', ' '.join(['addlist', str(2 * len(l))] + [h(x) for y in l for x in (y, y)]) + '\\n')[0]
check(add('a', 'b') == ['a', 'b'], 1)
l = ['a', 'b', 'c', 'd', 'e', 'a']
check(add(*l) == l[:5], add(*l))
'''
