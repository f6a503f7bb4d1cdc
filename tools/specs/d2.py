ID='c12-nonunique-order'; PROPERTY='C12'
NEEDS='three messages with the same id where non-unique ids are allowed, the last two having the same order'
BREAKS='two messages with the same id and order are accepted'
EDITS=[('lib/src/parse/ParseNamespaceImpl.cpp','''    for (auto iter = allMsgs.begin(); iter != (allMsgs.end() - 1); ++iter) {
        auto nextIter = iter + 1;''','''    for (auto iter = allMsgs.begin(); iter < (allMsgs.end() - 1); ++iter) {
        auto nextIter = iter + 1;
        if (allowNonUniquIds && (iter != allMsgs.begin()) && ((iter - 1)->parseId() == iter->parseId())) {
            continue;
        }
''')]
DEMO='''
def p(*l):
    return parse('', ''.join('<message name="M%d" id="%d" order="%d"/>' % (i, a, b) for i, (a, b) in enumerate(l)), nonUniqueMsgIdAllowed='true')
check(ok(p((1, 0), (1, 1), (1, 2))), 'different orders')
check(not ok(p((1, 1), (1, 1))), 'same order')
check(not ok(p((1, 0), (1, 1), (1, 1))), 'same order, third message')
'''
