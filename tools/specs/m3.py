ID='c11-list-clone-type'
PROPERTY='C11'
NEEDS='a combined condition (and/or) that is inherited by reuse, so that it is copied'
BREAKS='the nested combined conditions of the copy are reported with the wrong operator'
EDITS=[('lib/src/parse/ParseOptCondImpl.cpp','''  : Base(other),
    m_type(other.m_type)
{''','''  : Base(other),
    m_type((other.m_conds.size() > 2U) ? ParseType::And : other.m_type)
{''')]
DEMO='''
V = '<validCond><or><validCond>$a = 1</validCond><validCond>$b = 2</validCond><validCond>$a = 3</validCond></or></validCond>'
o = parse('<bundle name="x"><members><int name="a" type="uint8"/><int name="b" type="uint8"/></members>%s</bundle><bundle name="y" reuse="x"/>' % V, dslVersion='7')
check('crash' not in o and o['parse'] and o.get('errs', 0) == 0, o)
check(field(o, 0)['validcond'] == field(o, 1)['validcond'], (field(o, 0)['validcond'], field(o, 1)['validcond']))
'''
