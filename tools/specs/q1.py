ID='c24-last-element-wins'
PROPERTY='C24'
NEEDS='an element of a namespace whose file cannot be written, followed by elements whose files can'
BREAKS='the generator exits with success although a file it had to write is not complete'
EDITS=[('lib/src/gen/GenNamespace.cpp','''    return std::all_of(
        list.begin(), list.end(),
        [](auto& elem)
        {
            return elem->genWrite();
        });
}

} // namespace

class GenNamespaceImpl''','''    bool result = true;
    for (auto& elem : list) {
        result = elem->genWrite();
    }

    return result;
}

} // namespace

class GenNamespaceImpl''')]
exec(open('/tmp/gens.py').read())
DEMO=COMMON+'''
X = '<?xml version="1.0"?><schema name="demo" endian="big"><fields><enum name="Id" type="uint8" semanticType="messageId"><validValue name="M1" val="1"/><validValue name="M2" val="2"/></enum><int name="Fa" type="uint8"/><int name="Fb" type="uint8"/></fields><message name="Ma" id="1"><ref name="a" field="Fa"/></message><message name="Mb" id="2"><ref name="b" field="Fb"/></message><frame name="Fr"><id name="i" field="Id"/><payload name="d"/></frame></schema>'
rc, files, err = gen('commsdsl2comms', [X])
check(rc == 0, (rc, err))
for f in ('include/demo/field/Fa.h', 'include/demo/field/Fb.h', 'include/demo/message/Ma.h', 'include/demo/message/Mb.h'):
    check(f in files, (f, files))
    rc, _, err = gen('commsdsl2comms', [X], f)
    check(rc != 0, (f, rc, err))
'''
