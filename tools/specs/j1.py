ID='c19-detached-keeps-own-prefix'
PROPERTY='C19'
NEEDS='a raw data field that reuses one with a prefix field inside and names an earlier sibling as its prefix'
BREAKS='the inherited prefix is reported together with the sibling'
EDITS=[('lib/src/parse/ParseDataFieldImpl.cpp','''        m_state.m_extPrefixField = nullptr;
        m_prefixField.reset();
        return true;''','''        m_state.m_extPrefixField = nullptr;
        return true;''')]
DEMO='''
for inner in ('<lengthPrefix><int name="k" type="uint8"/></lengthPrefix>', ''):
    o = parse('<data name="z1">%s</data><bundle name="zc"><int name="s" type="uint8"/><data name="z3" reuse="z1" lengthPrefix="$s"/></bundle>' % inner)
    check(ok(o), o)
    f = [i for i in o['schemas'][0]['ns'][0]['fields'] if i['name'] == 'zc'][0]['members'][1]
    check(f['lp'] is None and f['dlp'] == 's', (f['lp'], f['dlp']))
'''
