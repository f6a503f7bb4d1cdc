ID='c13-suffix-order'; PROPERTY='C13'
NEEDS='a layer after the payload which names no start (a custom one) in front of, or between, two that name one, the second with an earlier start'
BREAKS='a layer after the payload may start earlier than one before it'
EDITS=[('lib/src/parse/ParseLayerImpl.cpp','''        if (iter == Map.end()) {
            continue;
        }

        auto func = iter->second;''','''        if (iter == Map.end()) {
            break;
        }

        auto func = iter->second;''')]
DEMO='''
def f(mid, a, b):
    fld = '<field><int name="X%d" type="uint8"/></field>'
    return ('<frame name="F"><layers><size name="S">' + fld % 1 + '</size><id name="I">' + fld % 2 + '</id><payload name="P"/>'
        + ('<custom name="Q">' + fld % 5 + '</custom>' if mid else '')
        + '<checksum name="A" alg="sum" from="' + a + '">' + fld % 3 + '</checksum>' + '<checksum name="B" alg="sum" from="' + b + '">' + fld % 4 + '</checksum></layers></frame>')
check(ok(parse('', f(False, 'I', 'S'))) == ok(parse('', f(True, 'I', 'S'))), 'custom layer between')
check(ok(parse('', f(True, 'S', 'S'))), 'same start')
check(not ok(parse('', f(False, 'S', 'I'))), 'starts S then I')
check(not ok(parse('', f(True, 'S', 'I'))), 'starts S then I after custom')
'''
