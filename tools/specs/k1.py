ID='c17-same-value-twice'
PROPERTY='C17'
NEEDS='a property written both as an attribute and as a child element, with the same value'
BREAKS='the property is accepted although it is given more than once'
EDITS=[('lib/src/parse/ParseXmlWrap.cpp','''    auto count = props.count(str);
    if (1U < count) {
        parseLogError''','''    auto count = props.count(str);
    auto range = props.equal_range(str);
    bool different = std::any_of(range.first, range.second, [&range](const auto& p) { return p.second != range.first->second; });
    if (different) {
        parseLogError''')]
DEMO='''
for v, want in (('mm', False), ('cm', False), ('', True)):
    o = parse('<int name="z" type="uint8" units="mm">%s</int>' % ('<units value="%s"/>' % v if v else ''))
    check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (v, o.get('errs')))
'''
