ID='c11-both-references'
PROPERTY='C11'
NEEDS='a condition that compares two sibling fields which are both references, to fields of kinds that cannot be compared'
BREAKS='the references are taken for fields of one kind and the condition is accepted'
EDITS=[('lib/src/parse/ParseFieldImpl.cpp','''    if (field.parseKind() == ParseKind::Ref) {
        auto& refField = static_cast<const ParseRefFieldImpl&>(field);''','''    if (parseKind() == field.parseKind()) {
        return true;
    }

    if (field.parseKind() == ParseKind::Ref) {
        auto& refField = static_cast<const ParseRefFieldImpl&>(field);''')]
DEMO='''
G = '<fields><int name="GI" type="uint8"/><int name="GJ" type="int16"/><string name="GS" length="4"/><enum name="GE" type="uint8"><validValue name="V" val="1"/></enum></fields>'
for x, y, want in (('GI', 'GS', False), ('GS', 'GI', False), ('GI', 'GJ', True), ('GI', 'GE', True), ('GS', 'GS', True)):
    m = '<message name="M" id="1"><ref name="a" field="%s"/><ref name="b" field="%s"/><optional name="o" cond="$a = $b"><int name="f" type="uint8"/></optional></message>' % (x, y)
    o = parse('', G + m)
    check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (x, y, o.get('errs'), o.get('msgs')))
'''
