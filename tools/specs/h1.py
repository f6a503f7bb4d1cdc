ID='c07-length-member'
PROPERTY='C07'
NEEDS='a bundle whose member with the length semantics is not an integer of its own but a reference'
BREAKS='the maximal length of the bundle is not unlimited any more'
EDITS=[('lib/src/parse/ParseBundleFieldImpl.cpp','''        if (m->parseSemanticType() == ParseSemanticType::Length) {
            return common::parseMaxPossibleLength();''','''        if ((m->parseKind() == ParseKind::Int) && (m->parseSemanticType() == ParseSemanticType::Length)) {
            return common::parseMaxPossibleLength();''')]
DEMO='''
aux = '<int name="n" type="uint8" semanticType="length"/>'
for m in ('<int name="a" type="uint8" semanticType="length"/>', '<ref name="a" field="n"/>', '<bitfield name="a" semanticType="length"><int name="b1" type="uint8" bitLength="4" semanticType="length"/><int name="b2" type="uint8" bitLength="4"/></bitfield>'):
    o = parse(aux + '<bundle name="zz"><members>%s<int name="c" type="uint16"/></members></bundle>' % m)
    check(ok(o), 'accepted')
    f = field(o)
    check(f['name'] == 'zz' and (int(f['minlen']), int(f['maxlen'])) == (3, 2**64 - 1), (m, f['minlen'], f['maxlen']))
'''
