ID='c18-relative-namespace'
PROPERTY='C18'
NEEDS='a reference whose path names a namespace nested in another one under its last name only, e.g. a.b.b where a.b has no namespace b but a has'
BREAKS='a reference to a definition that does not exist is resolved to one in an outer namespace instead of being rejected'
EDITS=[('lib/src/parse/ParseSchemaImpl.cpp','''            auto iter = nsMap->find(nsName);
            if (iter == nsMap->end()) {
                return nullptr;
            }

            assert(iter->second);
            ns = iter->second.get();''','''            auto iter = nsMap->find(nsName);
            if ((iter == nsMap->end()) && (ns != nullptr)) {
                nsMap = &m_namespaces;
                iter = nsMap->find(nsName);
            }

            if (iter == nsMap->end()) {
                return nullptr;
            }

            assert(iter->second);
            ns = iter->second.get();''')]
DEMO='''
NSS = '<ns name="a"><ns name="b"><fields><int name="f" type="uint8"/></fields></ns></ns><ns name="c"><fields><int name="g" type="uint8"/></fields></ns>'
for path, want in (('a.b.f', True), ('c.g', True), ('a.c.g', False), ('a.b.c.g', False), ('a.b.a.b.f', False)):
    o = parse('', NSS + '<ns name="z"><fields><ref name="z" field="%s"/></fields></ns>' % path)
    check('crash' not in o and o['parse'] and (o.get('errs', 0) == 0) == want, (path, o.get('errs')))
'''
