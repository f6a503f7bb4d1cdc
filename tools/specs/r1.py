ID='c15-template-rest-of-line'
PROPERTY='C15'
NEEDS='a template marker without value at the start of a line that has other text behind it'
BREAKS='the text behind the marker is dropped together with it'
EDITS=[('lib/src/gen/util.cpp','''            std::string postStr(templ.begin() + afterSuffixPos, templ.begin() + nextNewLinePos);
            if ((!postStr.empty()) &&
                (postStr.find_first_not_of(WhiteSpaces) != std::string::npos)) {
                break;
            }
''','''            std::string postStr(templ.begin() + afterSuffixPos, templ.begin() + nextNewLinePos);
            if ((!preStr.empty()) &&
                (postStr.find_first_not_of(WhiteSpaces) != std::string::npos)) {
                break;
            }
''')]
DEMO='''
def h(s):
    return 'x' + s.encode().hex()
def fill(t, **kv):
    return run('U', ' '.join(['tmpl', h(t), '0', str(len(kv))] + [x for k, v in kv.items() for x in (h(k), h(v))]) + '\\n')[0]
check(fill('a\\n  #^#X#$#b\\nc\\n', X='1\\n2') == 'a\\n  1\\n  2b\\nc\\n', 1)
check(fill('a\\n  #^#X#$#b\\nc\\n', X='') == 'a\\n  b\\nc\\n', 2)
check(fill('a\\n  #^#X#$#\\nc\\n', X='') == 'a\\nc\\n', 3)
check(fill('a\\n#^#X#$#b\\nc\\n', X='') == 'a\\nb\\nc\\n', 4)
'''
