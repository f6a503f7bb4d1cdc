ID='c19-elem-fixed-on-reuse'
PROPERTY='C19'
NEEDS='a list that reuses one with elemFixedLength and redefines the element as one of variable length'
BREAKS='a list of fixed length elements is accepted with an element of variable length'
EDITS=[('lib/src/parse/ParseListFieldImpl.cpp','''        if (iter == parseProps().end()) {
            break;
        }

        bool ok = false;
        m_state.m_elemFixedLength = ''','''        if (iter == parseProps().end()) {
            return true;
        }

        bool ok = false;
        m_state.m_elemFixedLength = ''')]
DEMO='''
for e, want in (('int', True), ('string', False)):
    o = parse('<int name="pi" type="uint8"/><list name="z1" element="pi" elemFixedLength="true"/><list name="z2" reuse="z1"><element><%s name="k"%s/></element></list>' % (e, ' type="uint16"' if e == 'int' else ''))
    check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (e, o.get('errs')))
'''
