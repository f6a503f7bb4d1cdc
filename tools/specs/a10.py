ID='c14-field-minlength'; PROPERTY='C14'
NEEDS='validateMinLength on a field in a schema declaring dslVersion 4, 5 or 6'
BREAKS='validateMinLength of fields has effect before DSL version 7'
EDITS=[('lib/src/parse/ParseProtocolImpl.cpp','''bool ParseProtocolImpl::parseIsValidateMinLengthForFieldsSupported() const
{
    return parseIsFeatureSupported(7U);''','''bool ParseProtocolImpl::parseIsValidateMinLengthForFieldsSupported() const
{
    return parseIsPropertySupported(common::parseValidateMinLengthStr());''')]
DEMO='''
def f(v):
    return parse('<bundle name="B" validateMinLength="3"><int name="A" type="uint8"/></bundle>', dslVersion=v)
check(not ok(f(7)), 'from version 7 on the length is validated')
check(not ok(f(8)), 'from version 7 on the length is validated')
check(ok(f(6)) and ok(f(5)) and ok(f(4)), 'ignored before version 7')
'''
