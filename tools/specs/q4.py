ID='c24-earlier-schema-result-lost'
PROPERTY='C24'
NEEDS='two schemas, and a file of the first one which cannot be written'
BREAKS='the generator exits with success although a file of an earlier schema is not complete'
EDITS=[('app/commsdsl2comms/src/CommsGenerator.cpp','''    for (auto idx = 0U; idx < genSchemas().size(); ++idx) {
        genChooseCurrentSchema(idx);
        bool result =
            CommsFieldBase::commsWrite(*this) &&
            CommsVersion::commsWrite(*this) &&
            CommsDefaultOptions::commsWrite(*this);

        if (!result) {
            return false;
        }
    }
''','''    bool written = true;
    for (auto idx = 0U; idx < genSchemas().size(); ++idx) {
        genChooseCurrentSchema(idx);
        written =
            CommsFieldBase::commsWrite(*this) &&
            CommsVersion::commsWrite(*this) &&
            CommsDefaultOptions::commsWrite(*this);
    }

    if (!written) {
        return false;
    }
''')]
exec(open('/tmp/gens.py').read())
DEMO=COMMON+'''
A = '<?xml version="1.0"?><schema name="one" endian="big"><fields><int name="Fa" type="uint8"/></fields></schema>'
B = '<?xml version="1.0"?><schema name="two" endian="big"><fields><enum name="Id" type="uint8" semanticType="messageId"><validValue name="M1" val="1"/></enum></fields><message name="Ma" id="1"><ref name="a" field="@one.Fa"/></message><frame name="Fr"><id name="i" field="Id"/><payload name="d"/></frame></schema>'
opts = ('--multiple-schemas-enabled',)
rc, files, err = gen('commsdsl2comms', [A, B], None, opts)
check(rc == 0, (rc, err))
todo = [f for f in files if f.endswith('/FieldBase.h') or f.endswith('/Version.h')]
check(len(todo) == 4, todo)
for f in todo:
    rc, _, err = gen('commsdsl2comms', [A, B], f, opts)
    check(rc != 0, (f, rc, err))
'''
