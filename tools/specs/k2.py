ID='c17-child-after-attr-dropped'
PROPERTY='C17'
NEEDS='the offset of an integer written as an attribute and again as a child element with another value'
BREAKS='the property is accepted when given twice, and the child element is silently ignored'
EDITS=[('lib/src/parse/ParseIntFieldImpl.cpp','''    if (!parseValidateSinglePropInstance(common::parseDisplayOffsetStr())) {
        return false;
    }

    auto iter = parseProps().find(common::parseDisplayOffsetStr());
    if (iter == parseProps().end()) {
        return true;
    }
''','''    auto iter = parseProps().find(common::parseDisplayOffsetStr());
    if (iter == parseProps().end()) {
        return true;
    }
''')]
DEMO='''
for body, want in (('<displayOffset value="3"/>', False), ('', True)):
    o = parse('<int name="z" type="uint8" displayOffset="2">%s</int>' % body)
    check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (body, o.get('errs')))
'''
