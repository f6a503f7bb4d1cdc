ID='c24-wrapper-not-flushed'
PROPERTY='C24'
NEEDS='a device which is full when the buffered text of the message wrapper goes out'
BREAKS='the generator exits with success although the wrapper of a message was not written'
EDITS=[('app/commsdsl2emscripten/src/EmscriptenMessage.cpp','''    stream << util::genProcessTemplate(Templ, repl, true);
    stream.flush();
    return stream.good();
}

bool EmscriptenMessage::emscriptenWriteSourceInternal() const''','''    stream << util::genProcessTemplate(Templ, repl, true);
    return stream.good();
}

bool EmscriptenMessage::emscriptenWriteSourceInternal() const''')]
exec(open('/tmp/gens.py').read())
DEMO=COMMON+'''
X = '<?xml version="1.0"?><schema name="demo" endian="big"><fields><enum name="Id" type="uint8" semanticType="messageId"><validValue name="M1" val="1"/></enum></fields><interface name="Msg"><int name="v" type="uint8"/></interface><message name="M1" id="Id.M1"/><frame name="Fr"><id name="i" field="Id"/><payload name="d"/></frame></schema>'
rc, files, err = gen('commsdsl2emscripten', [X])
check(rc == 0, (rc, err))
todo = [f for f in files if 'M1' in f]
check(len(todo) >= 2, files)
for f in todo:
    rc, _, err = gen('commsdsl2emscripten', [X], f)
    check(rc != 0, (f, rc, err))
'''
