ID='c24-replaced-config-unchecked'
PROPERTY='C24'
NEEDS='a replacement of the configuration file among the injected code, and no room for it'
BREAKS='the generator exits with success although the replacement was not written'
EDITS=[('app/commsdsl2latex/src/Latex.cpp','''        auto replaceFileName = docName + strings::genReplaceFileSuffixStr();
        bool hasReplace = false;
        auto replaceContents = m_latexGenerator.genReadCodeInjectCode(replaceFileName, "Replace the whole file", &hasReplace);
        if (hasReplace) {
            stream << replaceContents;
            break;
        }''','''        auto replaceFileName = docName + strings::genReplaceFileSuffixStr();
        bool hasReplace = false;
        auto replaceContents = m_latexGenerator.genReadCodeInjectCode(replaceFileName, "Replace the whole file", &hasReplace);
        if (hasReplace) {
            stream << replaceContents;
            return true;
        }''')]
exec(open('/tmp/gens.py').read())
DEMO=COMMON+'''
X = '<?xml version="1.0"?><schema name="demo" endian="big"><fields><int name="Fa" type="uint8"/></fields></schema>'
rc, files, err = gen('commsdsl2latex', [X])
check(rc == 0 and 'demo_doc.cfg' in files, (rc, files, err))
rc, _, err = gen('commsdsl2latex', [X], 'demo_doc.cfg')
check(rc != 0, (rc, err))
code = {'demo_doc.cfg.replace': 'mine\\n', 'demo_doc.tex.replace': 'mine\\n'}
rc, _, err = gen('commsdsl2latex', [X], None, (), code)
check(rc == 0, (rc, err))
for f in ('demo_doc.cfg', 'demo_doc.tex'):
    rc, _, err = gen('commsdsl2latex', [X], f, (), code)
    check(rc != 0, (f, rc, err))
'''
