ID='c14-fixed-value'; PROPERTY='C14'
NEEDS='a field with fixedValue in a schema declaring dslVersion 6'
BREAKS='the fixedValue property has effect one DSL version too early'
EDITS=[('lib/src/parse/ParseProtocolImpl.cpp','{common::parseFixedValueStr(), 7U}','{common::parseFixedValueStr(), 6U}')]
DEMO='''
def f(v):
    return parse('<int name="a" type="uint8" defaultValue="3" fixedValue="true"/>', dslVersion=v)
check(ok(f(7)) and field(f(7))['fixedv'], 'available in version 7')
check((not ok(f(6))) or not field(f(6))['fixedv'], 'not available in version 6')
'''
