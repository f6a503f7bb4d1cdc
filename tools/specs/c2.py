ID='c13-until-self'; PROPERTY='C13'
NEEDS='a checksum layer with both ends, the end naming a layer in front of it'
BREAKS='a checksum with both ends may end at a layer before it'
EDITS=[('lib/src/parse/ParseChecksumLayerImpl.cpp','''        if (untilIdx <= thisIdx) {''','''        if ((untilIdx <= thisIdx) && parseFrom().empty()) {''')]
DEMO='''
def f(frm, until):
    fld = '<field><int name="X%d" type="uint8"/></field>'
    return ('<frame name="F"><layers><size name="S">' + fld % 1 + '</size><checksum name="C" alg="sum"' + (' from="%s"' % frm if frm else '') + (' until="%s"' % until if until else '') + '>' + fld % 2
        + '</checksum><id name="I">' + fld % 3 + '</id><payload name="P"/></layers></frame>')
check(ok(parse('', f('', 'P'))), 'until P')
check(ok(parse('', f('S', 'P'))), 'S to P')
check(not ok(parse('', f('', 'S'))), 'until S')
check(not ok(parse('', f('S', 'S'))), 'S to S')
check(not ok(parse('', f('S', 'C'))), 'S to itself')
'''
