"""C15: text helpers of the generators produce exact literals and names."""
import re
import z3
from irv.contract import Contract
from irv.engine import StrS, schr, slen, And, Or, Not, Implies, bl, bv, SV, strlit
from irv import stl
from props import textfn as T

G = 'commsdsl::gen::'
U = G + 'util::'
SRCS = ['gen/util.cpp', 'gen/comms.cpp', 'gen/strings.cpp']
USE_BASE = False
ASSUME = ['templates are well formed: every marker is closed and its line ends (otherwise genProcessTemplate fails an assertion); tidying (genDoTidyCode) is replayed, not proved',
          'a separator that is split by and a text that is replaced are not empty']
BOUND = 'about 1500 calls of the helpers: numbers at every power of two and threshold and random ones, names, paths, scopes and texts with separators at the start, the end and in series; 150 (2500) templates with up to 6 lines and 12 markers, tidied and not, and as many texts wrapped'
WALL = 150
LEVEL = 'proof'


def i64(cx, i):
    v = cx.arg(i)
    w = 64 if isinstance(v, int) else v.size()
    if w == 64:
        return bv(v, 64)
    return z3.ZeroExt(64 - w, v)


def lit_ens(conv=i64, comment=False):
    def ens(cx):
        return [('the text is a literal of exactly that number', T.is_literal(cx, cx.ret_str(), conv(cx, 0)))]
    return ens


def litc(fn, sig, pure):
    return Contract(fn, sig=sig, ensures=lit_ens(), modifies=[], pure=pure, label=fn + sig)


def first_char(f):
    def ens(cx):
        s, r = cx.str_arg(0).z(), cx.ret_str()
        n = bv(cx.eng.str_len(cx.st1, cx.str_arg(0)), 64)
        c0 = stl.char_at(cx.eng, cx.st1, s, z3.BitVecVal(0, 64))
        out = [('the length is kept', bv(cx.eng.str_len(cx.st1, r), 64) == n)]
        if cx.assuming:
            return out
        k = z3.FreshConst(z3.BitVecSort(64), 'k')
        want = z3.If(k == 0, f(c0), stl.char_at(cx.eng, cx.st1, s, k))
        return out + [('only the first letter changes, to the other case', Implies(z3.ULT(k, n), stl.char_at(cx.eng, cx.st1, r, k) == want))]
    return ens


def up(c):
    return z3.If(z3.And(z3.UGE(c, ord('a')), z3.ULE(c, ord('z'))), c - 32, c)


def low(c):
    return z3.If(z3.And(z3.UGE(c, ord('A')), z3.ULE(c, ord('Z'))), c + 32, c)


def path_add(cx):
    a, b, r = cx.str_arg(0), cx.str_arg(1), cx.ret_str()
    n = bv(cx.eng.str_len(cx.st1, a), 64)
    last = stl.char_at(cx.eng, cx.st1, a, n - 1)
    slash = z3.BitVecVal(ord('/'), 8)
    return [('an empty path gives the element', Implies(n == 0, T.same(cx, r, b))),
            ('no separator is added after one', Implies(z3.And(n != 0, last == slash), T.same(cx, r, stl.concat(a, b)))),
            ('exactly one separator is inserted', Implies(z3.And(n != 0, last != slash), T.same(cx, r, stl.concat(stl.concat(a, SV('/')), b))))]


def path_up(cx):
    a, r = cx.str_arg(0), cx.ret_str()
    n = bv(cx.eng.str_len(cx.st1, a), 64)
    p = z3.Function('strrfind', StrS, StrS, z3.BitVecSort(64), z3.BitVecSort(64))(a.z(), strlit('/'), z3.BitVecVal(2**64 - 1, 64))
    rn = bv(cx.eng.str_len(cx.st1, r), 64)
    k = z3.FreshConst(z3.BitVecSort(64), 'k')
    return [('cut at the last separator', rn == z3.If(p == z3.BitVecVal(2**64 - 1, 64), z3.BitVecVal(0, 64), p)),
            ('nothing before it changes', Implies(z3.ULT(k, rn), stl.char_at(cx.eng, cx.st1, r, k) == stl.char_at(cx.eng, cx.st1, a, k)))]


def starts(cx):
    a, b = cx.str_arg(0), cx.str_arg(1)
    n, m = bv(cx.eng.str_len(cx.st1, a), 64), bv(cx.eng.str_len(cx.st1, b), 64)
    k = z3.FreshConst(z3.BitVecSort(64), 'k')
    return [('a longer prefix is none', Implies(z3.ULT(n, m), Not(cx.res))),
            ('every character of the prefix agrees', Implies(z3.And(cx.res, z3.ULT(k, m)), stl.char_at(cx.eng, cx.st1, a, k) == stl.char_at(cx.eng, cx.st1, b, k)))]


def name_ens(cx):
    t = cx.str_arg(0).z()
    out = []
    import itertools
    for perm in itertools.permutations('.- '):        # the replacements do not influence each other
        r = t
        for c in perm:
            r = T.rep(r, strlit(c), strlit('_'), z3.BitVecVal(0, 64))
        out.append(cx.ret_str().z() == r)
    return [('dots, dashes and spaces become underscores', Or(*out))]


def bool_str(cx):
    return [('true or false', T.deref_str(cx) == z3.If(bl(cx.arg(0)), strlit('true'), strlit('false')))]


def add_ens(cx):
    eng = cx.eng
    old = stl.get_vec(eng, cx.st0, cx.args[1], 'std::string', cx.mod)
    new = stl.get_vec(eng, cx.st1, cx.args[1], 'std::string', cx.mod)
    d = bv(new.n, 64) - bv(old.n, 64)
    val = cx.str_arg(0)
    k = z3.FreshConst(z3.BitVecSort(64), 'k')
    at = lambda v, i, st=cx.st1: stl.get_str(eng, st, stl.idx_ptr(eng, st, v.store, i)).z()
    stl.inst(cx.st1, new.store, k)
    out = [('at most one element is added', z3.Or(d == 0, d == 1)),
           ('a text that is not there yet is added: no element is equal to it', Implies(z3.And(d == 1, z3.ULT(k, bv(old.n, 64))), at(old, k, cx.st0) != val.z()))]
    if d is not None and z3.is_true(z3.simplify(d == 1)):
        out.append(('the text is added at the end', at(new, old.n) == val.z()))
    return out


def disp(cx):
    a, b = cx.str_arg(0), cx.str_arg(1)
    n = bv(cx.eng.str_len(cx.st0, a), 64)
    return [('the given name, the name when none is given, nothing for _', T.deref_str(cx) == z3.If(n == 0, b.z(), z3.If(a.z() == strlit('_'), strlit(''), a.z())))]


TYPES = ['std::int8_t', 'std::uint8_t', 'std::int16_t', 'std::uint16_t', 'std::int32_t', 'std::uint32_t', 'std::int64_t', 'std::uint64_t']


def int_type(cx):
    t, n = bv(cx.arg(0), 32), bv(cx.arg(1), 64)
    r = strlit('')
    for i, x in enumerate(TYPES):
        r = z3.If(t == i, strlit(x), r)
    for sgnd, t0 in ((0, 8), (1, 9)):
        v = z3.If(z3.ULE(n, 2), strlit(TYPES[2 + sgnd]), z3.If(z3.ULE(n, 4), strlit(TYPES[4 + sgnd]), strlit(TYPES[6 + sgnd])))
        r = z3.If(t == t0, v, r)
    return [('the type holds every value of the field type', T.deref_str(cx) == r)]


def add_len(cx):
    a, b = bv(cx.arg(0), 64), bv(cx.arg(1), 64)
    big = z3.BitVecVal(2**64 - 1, 64)
    return [('the sum, saturating at the unlimited length', cx.res == z3.If(z3.Or(z3.ULT(a + b, a)), big, a + b))]


def contracts():
    out = [litc(U + 'genNumToString', '(unsigned long, unsigned int)', 'u2s'), litc(U + 'genNumToString', '(long)', 'i2s'),
           litc(U + 'genNumToString', '(unsigned int, unsigned int)', 'n2s'), litc(U + 'genNumToStringWithHexComment', '(long)', 'i2sh'),
           Contract(G + 'comms::genClassName', ensures=first_char(up), modifies=[], pure='clsname'),
           Contract(G + 'comms::genAccessName', ensures=first_char(low), modifies=[], pure='accname'),
           Contract(U + 'genPathAddElem', ensures=path_add, modifies=[], pure='pathadd'),
           Contract(U + 'genPathUp', ensures=path_up, modifies=[], pure='pathup', callable=False),
           Contract(U + 'genStrStartsWith', ensures=starts, modifies=[], callable=False),
           Contract(U + 'genStrReplace', requires=T.replace_pre, ensures=T.replace_ens, modifies=[], pure='strreplace', loops={U + 'genStrReplace': T.replace_loop}),
           Contract(U + 'genScopeToRelPath', ensures=lambda cx: [('every :: becomes a separator', cx.ret_str().z() == T.rep(cx.str_arg(0).z(), strlit('::'), strlit('/'), z3.BitVecVal(0, 64)))], modifies=[],
                    callable=False),
           Contract(U + 'genStrToName', ensures=name_ens, modifies=[], callable=False),
           Contract(U + 'genStrSplit', requires=lambda cx: [('the separator is not empty', bv(cx.eng.str_len(cx.st0, cx.str_arg(1)), 64) != 0)], ensures=T.split_ens, callable=False, loops={U + 'genStrSplit': T.cutting('find')}),
           Contract(U + 'genStrSplitByAnyChar', ensures=T.split_ens, callable=False, loops={U + 'genStrSplitByAnyChar': T.cutting('ffo')}),
           Contract(U + 'genStrMakeMultiline', requires=lambda cx: [('some length', bv(cx.arg(1), 32) != 0)], ensures=T.wrap_ens, modifies=[], callable=False, loops={U + 'genStrMakeMultiline': T.wrap_loop()}),
           Contract(U + 'genDoTidyCode', apply_fn=T.tidied, trusted=True, note='replay only: removes blank lines and trailing spaces'),
           Contract(U + 'genProcessTemplate', ensures=T.fill_ens, modifies=[], callable=False, loops={U + 'genProcessTemplate': T.fill_loop()}),
           Contract(U + 'genAddToStrList', sig='> const&, std::vector', label=U + 'genAddToStrList(const&)', ensures=add_ens, callable=False),
           Contract(U + 'genAddToStrList', sig='>&&, std::vector', label=U + 'genAddToStrList(&&)', ensures=add_ens, callable=False),
           Contract(U + 'genStrListToString', ensures=T.join_ens, modifies=[], callable=False, loops={U + 'genStrListToString': T.join_loop()}),
           Contract(U + 'genDisplayName', ensures=disp, modifies=[], callable=False),
           Contract(U + 'genStrInsertIndent', ensures=lambda cx: [('every line is indented', T.same(cx, cx.ret_str(), stl.concat(SV('    '), SV(T.rep(cx.str_arg(0).z(), strlit('\n'), strlit('\n    '), z3.BitVecVal(0, 64))))))], modifies=[], callable=False),
           Contract(U + 'genBoolToString', ensures=bool_str, modifies=[], callable=False),
           Contract(G + 'comms::genAddLength', ensures=add_len, modifies=[], callable=False),
           Contract(G + 'comms::genCppIntTypeFor', requires=lambda cx: [('a type', z3.ULT(bv(cx.arg(0), 32), 10))], ensures=int_type, modifies=[], callable=False)]
    return out


# ---------------------------------------------------------------- replay corpus
def hx(s):
    return 'x' + s.encode('latin-1').hex()


def nums(rng, tier):
    vs = {0, 1, 9, 10, 99, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1}
    for b in range(64):
        vs |= {2**b, 2**b - 1, 2**b + 1}
    for _ in range(100 if tier == 'quick' else 2000):
        vs.add(rng.getrandbits(rng.randint(1, 64)))
    return sorted(v for v in vs if 0 <= v < 2**64)


NAMES = ['', 'a', 'A', 'z', 'Z', 'someName', 'SomeName', '_x', 'x1', 'aB', 'ABC', 'a_b', 'camelCaseName', 'X9y']
TEXTS = ['', 'a', '.', '..', 'a.b', '.a', 'a.', 'a..b', '...', 'ns.sub.name', 'a.b.c.', '::', 'a::b', '::a::b::', 'a:b', 'x y-z.w', 'aaa', 'aaaa', 'abab', 'a,b;c', ',a;', 'line1\nline2\n', 'a/b', '/', 'a/', '/a', 'a/b/c', 'a//b']
SEPS = ['.', '..', '::', 'aa', ',', ';', ',;', '/', ':', 'ab', '\n']


WORDS = ['', 'int', 'a', 'x();', '{', '}', '} // namespace', 'foo bar', '  two', 'tail  ', '#', '#^', '$#', '0x1,', '0x2,']
KEYS = ['A', 'NAME', 'VAL', 'EMPTY', 'LIST', 'UNKNOWN']
DISPLAY = ['', '_', 'Some Name', 'x', ' ']


def text_calls(rng, tier):
    out = []
    for i in range(150 if tier == 'quick' else 2500):
        vals = {'A': rng.choice(['x', 'l1\nl2', '']), 'NAME': 'Name%d' % i, 'VAL': 'one\n  two\n\nthree', 'EMPTY': '', 'LIST': 'p,\nq,\nr\n', 'NOT': 'never used'}
        lines = []
        for _ in range(rng.randint(1, 6)):
            l = ' ' * rng.choice((0, 0, 1, 4, 8)) + rng.choice(WORDS)
            for _ in range(rng.randint(0, 2)):
                l += '#^#%s#$#' % rng.choice(KEYS) + rng.choice(['', '', ' ', ';', 'z'])
            lines.append(l)
        t = '\n'.join(lines) + '\n' * rng.choice((1, 1, 2))
        out.append(('tmpl', t, int(i % 4 == 3), len(vals)) + tuple(x for kv in sorted(vals.items()) for x in kv))
    for i in range(150 if tier == 'quick' else 2500):
        t = ''.join(rng.choice(['a', 'bcd', 'longerword', 'x' * rng.randint(1, 30), 're-used', 'one,two', 'and/or', 'a;b:c', '(x)', 'p|q', 'u_v', 'k=v']) + rng.choice([' ', ' ', ' ', '\n', '\t', '  ', '. ']) for _ in range(rng.randint(0, 14)))
        if i % 3:
            t = t.rstrip()
        out.append(('wrap', t, rng.choice((1, 2, 5, 10, 20, 40, 60)), int(i % 4 != 0)))
    for t in TEXTS + ['a\nb', '\n', 'a\n\nb\n']:
        out.append(('indent', t))
    for i in range(40):
        l = [rng.choice(['', 'a', 'b', 'a', 'line\nline', 'c', 'd', 'e', 'f', 'g']) for _ in range(rng.randint(0, 14))]
        out.append(('join', rng.choice([',\n', ', ', '']), rng.choice(['\n', '', ';']), len(l)) + tuple(l))
        out.append(('addlist', len(l)) + tuple(l))
    for a in DISPLAY:
        for b in DISPLAY[2:]:
            out.append(('display', a, b))
    return out


def fill(t, vals):
    """the template with every marker replaced: a value of several lines is indented as its marker, a line holding only a marker without value goes away"""
    out = []
    for line in re.findall(r'[^\n]*\n|[^\n]+', t):
        ms = list(re.finditer(r'#\^#(.*?)#\$#', line))
        if len(ms) == 1 and not vals.get(ms[0].group(1), '') and not (line[:ms[0].start()] + line[ms[0].end():]).strip(' \t\r\n'):
            continue
        pos, r = 0, ''
        for m in ms:
            r += line[pos:m.start()] + vals.get(m.group(1), '').replace('\n', '\n' + ' ' * m.start())
            pos = m.end()
        out.append(r + line[pos:])
    return ''.join(out)


def written(t):
    return [x.rstrip(' \t') for x in t.split('\n') if x.strip(' \t')]


def judge_text(c, r):
    f, a = c[0], c[1:]
    if f == 'tmpl':
        vals = dict(zip(a[3::2], a[4::2]))
        want = fill(a[0], vals)
        if a[1]:
            return None if written(r) == written(want) else 'tidying changes more than blank lines and trailing spaces: %r, filled in it is %r' % (r, want)
        return None if r == want else 'gives %r, expected %r' % (r, want)
    if f == 'wrap':
        if len(a[0]) <= a[1]:
            return None if r == a[0] else 'changes a text that fits: %r' % (r,)
        if ''.join(r.split()) != ''.join(a[0].split()) or [x for x in r.split()] != [x for x in a[0].split()]:
            return 'changes the words: %r' % (r,)
        if a[2] and (len(r) != len(a[0]) or any(x != y and not (x in ' \t' and y == '\n') for x, y in zip(a[0], r))):
            return 'does more than turning white space into line ends: %r' % (r,)
        return None
    if f == 'indent':
        w = '    ' + a[0].replace('\n', '\n    ')
    elif f == 'join':
        w = a[0].join(a[3:]) + (a[1] if a[3:] else '')
    elif f == 'addlist':
        w = list(dict.fromkeys(a[1:]))
    else:
        w = a[1] if a[0] == '' else '' if a[0] == '_' else a[0]
    return None if r == w else 'gives %r, expected %r' % (r, w)


def cases(rng, tier):
    calls = []
    for v in nums(rng, tier):
        for w in (0, 1, 2, 4, 8, 16):
            calls.append(('u2s', v, w))
        if v < 2**32:
            calls += [('n2s', v, 0), ('n2s', v, 4)]
        for x in (v, -v, v - 2**63):
            if -2**63 <= x < 2**63:
                calls += [('i2s', x), ('i2sh', x)]
    for n in NAMES + ['%s%s' % (rng.choice('azAZ_'), ''.join(rng.choice('azAZ09_') for _ in range(rng.randint(0, 8)))) for _ in range(30)]:
        calls += [('cls', n), ('acc', n), ('upper', n), ('lower', n), ('macro', n), ('namens', n), ('name', n)]
    rnd = [''.join(rng.choice('ab.:/,;') for _ in range(rng.randint(0, 9))) for _ in range(40 if tier == 'quick' else 600)]
    for t in TEXTS + rnd:
        calls += [('name', t), ('pathup', t), ('relpath', t)]
        for s in SEPS:
            calls += [('replace', t, s, ''), ('replace', t, s, 'XY'), ('replace', t, s, s + s), ('split', t, s, 0), ('split', t, s, 1), ('splitany', t, s, 0), ('splitany', t, s, 1),
                      ('starts', t, s), ('ends', t, s)]
        for s in ('', 'a', 'b.h', '/', 'a/b'):
            calls += [('pathadd', t, s), ('starts', t, s), ('ends', t, s), ('starts', s, t), ('ends', s, t)]
    for a in (0, 1, 2, 2**32, 2**63, 2**64 - 2, 2**64 - 1):
        for b in (0, 1, 3, 2**63, 2**64 - 1):
            calls.append(('addlen', a, b))
    for t in range(10):
        for n in range(1, 11):
            calls += [('inttype', t, n), ('intctype', t, n)]
    calls += [('b2s', 0), ('b2s', 1)]
    calls += text_calls(rng, tier)
    for i in range(0, len(calls), 12):
        part = calls[i:i + 12]
        yield ('U', '\n'.join(' '.join([c[0]] + [hx(x) if isinstance(x, str) else str(x) for x in c[1:]]) for c in part) + '\n', part)


LIT = re.compile(r'^(-?)(0[xX][0-9a-fA-F]+|0|[1-9][0-9]*)((?:[uU](?:ll|LL|l|L)?|(?:ll|LL|l|L)[uU]?)?)$')


def read_lit(t):
    """value of a C++ integer literal with optional sign, None when ill formed"""
    m = LIT.match(t)
    if not m:
        return None
    v = int(m.group(2), 16 if m.group(2)[:2].lower() == '0x' else 10)
    hexa, uns = m.group(2)[:2].lower() == '0x', 'u' in m.group(3).lower()
    if v >= 2**64 or (v >= 2**63 and not hexa and not uns):
        return None
    return (-v if m.group(1) else v) % 2**64


def read_comment(t):
    m = re.match(r'^(.*?)\s*/\*\s*(\S+)\s*\*/$', t)
    if not m:
        return read_lit(t)
    a, b = read_lit(m.group(1)), read_lit(m.group(2))
    return a if a == b else None


def split(s, seps, compressed, any_):
    out, pos = [], 0
    while pos < len(s):
        hits = [s.find(x, pos) for x in (list(seps) if any_ else [seps])]
        hits = [h for h in hits if h >= 0]
        n = min(hits) if hits else len(s)
        k = 1 if any_ else len(seps)
        if compressed and n == pos:
            pos += k
            continue
        out.append(s[pos:n])
        pos = n + k
    return out


def expect(c):
    f, a = c[0], c[1:]
    if f in ('cls', 'acc'):
        return (a[0][:1].upper() if f == 'cls' else a[0][:1].lower()) + a[0][1:]
    if f == 'upper':
        return a[0].upper()
    if f == 'lower':
        return a[0].lower()
    if f == 'macro':
        return ''.join(('_' if i and 'A' <= x <= 'Z' else '') + x.upper() for i, x in enumerate(a[0]))
    if f == 'namens':
        return ''.join(('_' if i and x.isupper() else '') + x.lower() for i, x in enumerate(a[0]))
    if f == 'name':
        return a[0].replace('.', '_').replace('-', '_').replace(' ', '_')
    if f == 'pathup':
        return a[0].rsplit('/', 1)[0] if '/' in a[0] else ''
    if f == 'relpath':
        return a[0].replace('::', '/')
    if f == 'replace':
        return a[0].replace(a[1], a[2])
    if f == 'split':
        return split(a[0], a[1], a[2], False)
    if f == 'splitany':
        return split(a[0], a[1], a[2], True)
    if f == 'starts':
        return int(a[0].startswith(a[1]))
    if f == 'ends':
        return int(a[0].endswith(a[1]))
    if f == 'pathadd':
        return a[0] + ('/' if a[0] and a[0][-1] != '/' else '') + a[1]
    if f == 'addlen':
        return str(min(a[0] + a[1], 2**64 - 1))
    if f in ('inttype', 'intctype'):
        uns = (a[0] & 1) == 1
        if f == 'intctype':
            uns = not uns
        bits = [8, 16, 32, 64][a[0] // 2] if a[0] < 8 else 16 if a[1] <= 2 else 32 if a[1] <= 4 else 64
        return 'std::%sint%d_t' % ('u' if uns else '', bits)
    if f == 'b2s':
        return 'true' if a[0] else 'false'


def judge(case, obs):
    for c, r in zip(case[2], obs):
        if c[0] in ('i2s', 'u2s', 'n2s', 'i2sh'):
            v = read_comment(r) if c[0] == 'i2sh' else read_lit(r)
            if v != c[1] % 2**64:
                return ('literal', '%s is written as %r, which is not a literal of that number' % (c, r))
        elif c[0] in ('tmpl', 'wrap', 'indent', 'join', 'addlist', 'display'):
            why = judge_text(c, r)
            if why:
                return (c[0], '%s %s' % (c, why))
        elif r != expect(c):
            return (c[0], '%s gives %r, expected %r' % (c, r, expect(c)))
    if len(obs) != len(case[2]):
        return ('count', 'missing answers')
    return None
