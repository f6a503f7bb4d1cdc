"""reading of generated text: literals, equality of texts character by character"""
import z3
from irv.engine import VV, StrS, ObjS, And, Or, Not, Implies, bl, bv, SV, strlit, simp
from irv import stl

B64 = z3.BitVecSort(64)
islit = z3.Function('islit', StrS, z3.BoolSort())      # the text is a well formed integer literal
litval = z3.Function('litval', StrS, B64)              # and its value modulo 2^64
FALSE = z3.BoolVal(False)


def tok(parts):
    out = []
    for p in parts:
        out += list(p) if isinstance(p, str) else [p]
    return out


class Bad(Exception):
    pass


def number(t):
    """tokens of one literal -> (well formed, value)"""
    if len(t) == 1 and not isinstance(t[0], str) and t[0].decl().name().startswith('obs_'):
        return islit(t[0]), litval(t[0])
    i, neg, hexa = 0, False, False

    def ch(k, cs):
        return k < len(t) and isinstance(t[k], str) and t[k] in cs
    if ch(0, '-'):
        neg, i = True, 1
    if ch(i, '0') and ch(i + 1, 'xX'):
        hexa, i = True, i + 2
    if i >= len(t):
        raise Bad()
    conds = []
    if isinstance(t[i], str):
        d = ''
        while i < len(t) and isinstance(t[i], str) and t[i] in ('0123456789abcdefABCDEF' if hexa else '0123456789'):
            d += t[i]
            i += 1
        if not d or (not hexa and len(d) > 1 and d[0] == '0'):
            raise Bad()
        n = int(d, 16 if hexa else 10)
        if n >= 2**64:
            raise Bad()
        v = z3.BitVecVal(n, 64)
        small = n < 2**63
    else:
        x = t[i]
        i += 1
        nm = x.decl().name()
        if nm == 'strpad':
            if z3.simplify(x.arg(2)).as_long() != ord('0') or not hexa:
                raise Bad()
            x = x.arg(0)
            nm = x.decl().name()
        if nm not in ('uhex', 'uhexU', 'sdec', 'udec') or hexa != nm.startswith('uhex'):
            raise Bad()
        v = x.arg(0)
        if nm == 'sdec':
            if neg:
                conds.append(v >= 0)
            conds.append(v != z3.BitVecVal(1 << 63, 64))
            small = True
        else:
            small = v >= 0
    suf = ''.join(x if isinstance(x, str) else '?' for x in t[i:]).lower()
    if suf not in ('', 'u', 'l', 'll', 'ul', 'ull', 'lu', 'llu'):
        raise Bad()
    if not hexa and 'u' not in suf:
        conds.append(bl(small))
    return z3.And(conds) if conds else z3.BoolVal(True), (-v if neg else v)


def is_literal(cx, sv, value):
    """the text reads back as the value (and so does a number in a trailing comment)"""
    if cx.assuming:
        return z3.And(islit(sv.z()), litval(sv.z()) == value)
    if z3.is_expr(sv.v) and z3.is_app(sv.v) and sv.v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = sv.v.children()
        return z3.If(c, is_literal(cx, SV(a), value), is_literal(cx, SV(b), value))
    t = tok(stl.parts(sv))
    cm = None
    for i in range(len(t) - 1):
        if isinstance(t[i], str) and isinstance(t[i + 1], str) and t[i] + t[i + 1] == '/*':
            if len(t) < i + 4 or not all(isinstance(x, str) for x in t[-2:]) or t[-2] + t[-1] != '*/':
                return FALSE
            cm = [x for x in t[i + 2:-2] if not (isinstance(x, str) and x == ' ')]
            t = t[:i]
            while t and isinstance(t[-1], str) and t[-1] == ' ':
                t.pop()
            break
    try:
        ok, v = number(t)
        out = [ok, v == value]
        if cm is not None:
            ok2, v2 = number(cm)
            out += [ok2, v2 == value]
        return z3.And(out)
    except Bad:
        return FALSE


def same(cx, a, b):
    """equal texts"""
    az, bz = a.z(), b.z()
    if cx.assuming or az.eq(bz):
        return az == bz
    eng, st = cx.eng, cx.st1
    n, m = bv(length(eng, st, a), 64), bv(length(eng, st, b), 64)
    k = z3.FreshConst(B64, 'k')
    return z3.And(n == m, z3.Implies(z3.ULT(k, n), stl.char_at(eng, st, a, k) == stl.char_at(eng, st, b, k)))


def length(eng, st, a):
    n = z3.BitVecVal(0, 64)
    for p in stl.parts(a):
        n = n + bv(eng.str_len(st, SV(p)), 64)
    return simp(n)


def deref_str(cx):
    """text behind a returned reference"""
    return stl.get_str(cx.eng, cx.st1, cx.result).z()


# ---------------------------------------------------------------- replacing: the function defined by its recursion
rep = z3.Function('spec_replace', StrS, StrS, StrS, B64, StrS)      # (text, what, with, position): the rest with every occurrence replaced
NPOS = z3.BitVecVal(2**64 - 1, 64)
find = z3.Function('strfind', StrS, StrS, B64, B64)


def replace_pre(cx):
    return [('the text to find is not empty', bv(cx.eng.str_len(cx.st0, cx.str_arg(1)), 64) != 0)]


def replace_ens(cx):
    s, w, x = (cx.str_arg(i) for i in range(3))
    r = cx.ret_str()
    return [('every occurrence is replaced and nothing else changes', r.z() == rep(s.z(), w.z(), x.z(), z3.BitVecVal(0, 64)))]


def rep_def(eng, st, s, w, x, p):
    """the defining equation of the replaced rest at position p"""
    L, W = bv(eng.str_len(st, s), 64), bv(eng.str_len(st, w), 64)
    q = find(s.z(), w.z(), p)
    r = rep(s.z(), w.z(), x.z(), p)
    sub = z3.Function('substr', StrS, B64, B64, StrS)
    hit = stl.concat(stl.concat(SV(sub(s.z(), p, q - p)), x), SV(rep(s.z(), w.z(), x.z(), q + W)))
    return r == z3.If(z3.UGE(p, L), strlit(''), z3.If(z3.UGE(q, L), sub(s.z(), p, L - p), hit.z()))


def replace_loop(eng, st, fn, blk):
    from irv.engine import Houdini
    sp = eng.__dict__.setdefault('_houdini', {})
    k = (fn.name, blk)
    if k not in sp:
        def gen(lp):
            s, w, x = (stl.get_str(eng, lp.st, lp.regs_arg(i)) for i in range(3))
            ints = [key for key, v in lp.hav.items() if isinstance(key, tuple) and z3.is_bv(v) and v.size() == 64]
            strs = [key for key, v in lp.hav.items() if isinstance(key, tuple) and isinstance(v, SV)]
            facts = [rep_def(eng, lp.sh, s, w, x, lp.hav[i]) for i in ints]
            facts += [stl.strcat(lp.hav[r].z(), strlit('')) == lp.hav[r].z() for r in strs]
            whole = rep(s.z(), w.z(), x.z(), z3.BitVecVal(0, 64))
            cs = []
            for i in ints:
                for r in strs:
                    def f(state, i=i, r=r):
                        if r[0] not in state.mem or i[0] not in state.mem:
                            return FALSE
                        a, b = state.obj(r[0]).cells.get(r[1]), state.obj(i[0]).cells.get(i[1])
                        if a is None or b is None or not isinstance(a[1], SV) or not (isinstance(b[1], int) or z3.is_bv(b[1])):
                            return FALSE
                        a, b = a[1], b[1]
                        return stl.concat(a, SV(rep(s.z(), w.z(), x.z(), bv(b, 64)))).z() == whole
                    cs.append(((i, r), 'text so far and the replaced rest make the whole', f))
            return facts, cs
        sp[k] = Houdini(gen)
    return sp[k]


# ---------------------------------------------------------------- splitting: every step cuts the piece up to the next separator
def at_zero(lp):
    """the position: the variable of the loop that starts at 0"""
    out = []
    for k, v in lp.hav.items():
        if isinstance(k, tuple) and z3.is_bv(v) and v.size() == 64:
            c = lp.st.obj(k[0]).cells.get(k[1])
            if c is not None and (isinstance(c[1], int) or z3.is_bv(c[1])) and z3.is_true(z3.simplify(bv(c[1], 64) == 0)):
                out.append(k)
    return out[:1]


class Cutting:
    """every iteration takes the text from the position to the next separator (or the end) and goes on behind it; nothing but empty
    pieces is left out, and only when asked for; the position is the only state: the loop ends when it has passed the end"""

    def __init__(self, kind):
        self.kind = kind

    def assume(self, lp):
        pass

    def prune(self, lp, backs):
        return False

    def cells(self, lp):
        pos = at_zero(lp)
        vec = [k for k, v in lp.hav.items() if isinstance(k, tuple) and isinstance(v, VV)]
        return pos, vec

    def entry(self, lp):
        pos, vec = self.cells(lp)
        at = lambda k: lp.st.obj(k[0]).cells.get(k[1])
        ok = len(vec) == 1 and at(vec[0]) is not None
        out = [('one position and one list of pieces', ok and bool(pos))]
        if ok:
            out.append(('the list starts empty', bv(at(vec[0])[1].n, 64) == 0))
            out.append(('the position starts at the beginning', Or(*[at(k) is not None and bv(at(k)[1], 64) == 0 for k in pos if at(k) is None or isinstance(at(k)[1], int) or z3.is_bv(at(k)[1])])))
        return out

    def preserved(self, lp, s2):
        eng = lp.eng
        pos, vec = self.cells(lp)
        if len(vec) != 1:
            return [('one list of pieces', FALSE)]
        s, w = (stl.get_str(eng, s2, lp.regs_arg(i)) for i in range(2))
        comp = bl(lp.regs_arg(2))
        L = bv(eng.str_len(s2, s), 64)
        W = bv(eng.str_len(s2, w), 64) if self.kind == 'find' else z3.BitVecVal(1, 64)
        f = z3.Function('str' + self.kind, StrS, StrS, B64, B64)
        v0, v1 = lp.hav[vec[0]], s2.obj(vec[0][0]).cells[vec[0][1]][1]
        d = z3.simplify(bv(v1.n, 64) - bv(v0.n, 64))
        grown = d == 1
        sub = z3.Function('substr', StrS, B64, B64, StrS)
        piece = None
        if z3.is_bv_value(d) and d.as_long() == 1:
            piece = stl.get_str(eng, s2, eng.elem_ptr(v1.store, v0.n, s2.obj(v1.store).stride))
        alts = []
        for k in pos:
            c = s2.obj(k[0]).cells.get(k[1])
            if c is None or not (isinstance(c[1], int) or z3.is_bv(c[1])):
                continue
            p, p2 = lp.hav[k], bv(c[1], 64)
            q = f(s.z(), w.z(), p)
            end = z3.If(z3.UGE(q, L), L, q)
            if piece is None:
                alts.append(z3.And(d == 0, comp, q == p, p2 == p + W))
            else:
                alts.append(z3.And(grown, z3.Not(z3.And(comp, q == p)), piece.z() == sub(s.z(), p, end - p), p2 == end + W))
        return [('one piece up to the next separator is taken, or an empty one is left out when asked for', Or(*alts))]

    def at_exit(self, lp, s2):
        pos, vec = self.cells(lp)
        s = stl.get_str(lp.eng, s2, lp.regs_arg(0))
        L = bv(lp.eng.str_len(s2, s), 64)
        cs = [s2.obj(k[0]).cells.get(k[1]) for k in pos]
        s2.g['split_done'] = Or(*[z3.UGE(bv(c[1], 64), L) for c in cs if c is not None and (isinstance(c[1], int) or z3.is_bv(c[1]))])


def cutting(kind):
    sp = Cutting(kind)
    return lambda eng, st, fn, blk: sp


def split_ens(cx):
    return [('the whole text is split', cx.st1.g.get('split_done', FALSE))]


# ---------------------------------------------------------------- wrapping: white space becomes the end of a line, nothing else changes
class Wrapping:
    def assume(self, lp):
        r, pos = self.cells(lp, lp.sh)
        if pos:
            L = self.length(lp, lp.sh)
            lp.sh.assume(z3.Or(*[z3.ULE(p, L) for p in pos]) if len(pos) == 1 else z3.BoolVal(True))

    def prune(self, lp, backs):
        return False

    def length(self, lp, st):
        return bv(lp.eng.str_len(st, stl.get_str(lp.eng, st, lp.regs_arg(0))), 64)

    def keys(self, lp):
        return ([k for k, v in lp.hav.items() if isinstance(k, tuple) and isinstance(v, SV) and k[0] in lp.st.mem and k[1] in lp.st.obj(k[0]).cells],
                at_zero(lp))

    def cells(self, lp, st):
        at = lambda k: (st.obj(k[0]).cells.get(k[1]) or (0, None))[1] if k[0] in st.mem else None
        r, pos = self.keys(lp)
        return [at(k) for k in r], [bv(x, 64) for x in map(at, pos) if isinstance(x, int) or z3.is_bv(x)]

    def entry(self, lp):
        r, pos = self.cells(lp, lp.st)
        return [('no line yet', len(r) == 1 and isinstance(r[0], SV) and bv(lp.eng.str_len(lp.st, r[0]), 64) == 0), ('from the beginning', Or(*[p == 0 for p in pos]))]

    def preserved(self, lp, s2):
        eng = lp.eng
        rk, pk = self.keys(lp)
        if len(rk) != 1:
            return [('one text is written', FALSE)]
        val = stl.get_str(eng, s2, lp.regs_arg(0))
        drop = bl(lp.regs_arg(2))
        L = self.length(lp, s2)
        r0, r1 = lp.hav[rk[0]], s2.obj(rk[0][0]).cells[rk[0][1]][1]
        sub = z3.Function('substr', StrS, B64, B64, StrS)
        alts = []
        for k in pk:
            c = s2.obj(k[0]).cells.get(k[1])
            if c is None or not (isinstance(c[1], int) or z3.is_bv(c[1])):
                continue
            p, p2 = lp.hav[k], bv(c[1], 64)
            np = p2 - 1
            ch = stl.char_at(eng, s2, val.z(), np)
            line = stl.concat(r0, SV(sub(val.z(), p, np - p)))
            kept = stl.concat(line, SV(z3.Function('strofchar', z3.BitVecSort(8), StrS)(ch)))
            alts.append(z3.And(z3.ULT(p, p2), z3.ULT(np, L), stl.char_in(' \t\n', ch),
                               z3.If(drop, r1.z() == stl.concat(line, SV('\n')).z(), r1.z() == stl.concat(kept, SV('\n')).z())))
        return [('a line ends at white space and what is before it is kept', Or(*alts))]

    def at_exit(self, lp, s2):
        r, pos = self.cells(lp, s2)
        s2.g['wrap'] = (r, pos)


def wrap_loop():
    sp = Wrapping()
    return lambda eng, st, fn, blk: sp


def wrap_ens(cx):
    val, r = cx.str_arg(0), cx.ret_str()
    n = bv(cx.eng.str_len(cx.st0, val), 64)
    w = cx.st1.g.get('wrap')
    if w is None:
        return [('a text that fits is kept', And(r.z() == val.z(), z3.ULE(n, z3.ZeroExt(32, bv(cx.arg(1), 32)))))]
    sub = z3.Function('substr', StrS, B64, B64, StrS)
    return [('the rest is kept', Or(*[z3.If(z3.ULT(p, n), r.z() == stl.concat(t, SV(sub(val.z(), p, n - p))).z(), r.z() == t.z()) for t in w[0] for p in w[1]]))]


# ---------------------------------------------------------------- templates: every marker becomes its value, all other text stays
class Filling(Wrapping):
    """from the position to the next marker the text is copied, the marker gives way to its value (indented as the marker); a line with
    nothing but a marker without value is left out"""

    def terms(self, lp, st):
        eng = lp.eng
        t = stl.get_str(eng, st, lp.regs_arg(0))
        return t, bv(eng.str_len(st, t), 64)

    def before(self, eng, st, t, L, p):
        """what was read last is the end of a line or of a marker"""
        c = stl.char_at(eng, st, t.z(), p - 1)
        return z3.And(z3.ULE(p, L), z3.Or(p == 0, c == ord('\n'), c == ord('#')))

    def assume(self, lp):
        t, L = self.terms(lp, lp.sh)
        r, pos = self.cells(lp, lp.sh)
        F = lambda kind, w, i: z3.Function('str' + kind, StrS, StrS, B64, B64)(t.z(), strlit(w), i)
        for p in pos:
            lp.sh.assume(self.before(lp.eng, lp.sh, t, L, p))
            # the template is well formed: every marker is closed, and its line ends
            q = F('find', '#^#', p)
            e = F('find', '#$#', z3.simplify(q + 3))
            lp.sh.assume(z3.Implies(q != NPOS, z3.And(e != NPOS, F('ffo', '\n', z3.simplify(e + 3)) != NPOS)))

    def entry(self, lp):
        r, pos = self.cells(lp, lp.st)
        return [('nothing is written yet', len(r) == 1 and isinstance(r[0], SV) and bv(lp.eng.str_len(lp.st, r[0]), 64) == 0), ('from the beginning', bool(pos))]

    def preserved(self, lp, s2):
        eng = lp.eng
        rk, pk = self.keys(lp)
        if len(rk) != 1 or len(pk) != 1:
            return [('one text is written', FALSE)]
        t, L = self.terms(lp, s2)
        r0, r1 = lp.hav[rk[0]], s2.obj(rk[0][0]).cells[rk[0][1]][1]
        p, p2 = lp.hav[pk[0]], bv(s2.obj(pk[0][0]).cells[pk[0][1]][1], 64)
        T = t.z()
        C = lambda n: z3.BitVecVal(n, 64)
        F = lambda kind, s, w, i: z3.Function('str' + kind, StrS, StrS, B64, B64)(s, strlit(w), i)
        sub = z3.Function('substr', StrS, B64, B64, StrS)
        q = F('find', T, '#^#', p)
        e = F('find', T, '#$#', z3.simplify(q + 3))
        key = z3.simplify(sub(T, q + 3, e - (q + 3)))
        m = stl.get_vec(eng, s2, lp.regs_arg(1), 'std::pair<std::string const, std::string>', lp.fn.mod, 'map', 'std::string', False)
        out = []
        for (s3, i) in stl.map_find(eng, s2, m, 'std::string', SV(simp(key)), lp.fn.mod):
            el = eng.elem_ptr(m.store, i, s3.obj(m.store).stride)
            v = stl.get_str(eng, s3, el.add(32))
            V = z3.If(bv(i, 64) == bv(m.n, 64), strlit(''), v.z())
            n = z3.If(bv(i, 64) == bv(m.n, 64), C(0), bv(eng.str_len(s3, v), 64))
            f = F('flo', T, '\n', q)
            ls = z3.If(f == NPOS, C(0), f + 1)
            after = e + 3
            nl = F('ffo', T, '\n', z3.simplify(after))
            blank = lambda a, b: z3.Or(a == b, *[F('ffno', x, ' \t\r', C(0)) == NPOS for x in self.subs(T, a, b)])
            line = z3.And(nl != NPOS, blank(ls, q), blank(after, nl))
            ind = q - ls
            fill = z3.Function('strfill', B64, z3.BitVecSort(8), StrS)(ind, z3.BitVecVal(32, 8))
            lines = z3.Function('obs_strreplace', StrS, StrS, StrS, StrS)
            upto = stl.concat(r0, SV(sub(T, p, q - p)))
            found = z3.And(q != NPOS, e != NPOS)
            shown = z3.If(ind == 0, stl.concat(upto, v).z(), stl.concat(upto, SV(lines(v.z(), strlit('\n'), stl.concat(SV('\n'), SV(fill)).z()))).z())
            out += [('the marker and its value are taken', found),
                    ('a value takes the place of its marker', Implies(z3.And(found, n != 0), z3.And(p2 == after, r1.z() == shown))),
                    ('a marker without value goes away, a line of nothing else with it', Implies(z3.And(found, n == 0), z3.If(line, z3.And(p2 == nl + 1, r1.z() == stl.concat(r0, SV(sub(T, p, ls - p))).z()), z3.And(p2 == after, r1.z() == upto.z())))),
                    ('what was read last is the end of a line or of a marker', self.before(eng, s3, t, L, p2))]
        return out

    def subs(self, T, a, b):
        sub = z3.Function('substr', StrS, B64, B64, StrS)
        return [z3.simplify(sub(T, a, b - a))]

    def at_exit(self, lp, s2):
        r, pos = self.cells(lp, s2)
        s2.g['fill'] = (r, pos)


def fill_loop():
    sp = Filling()
    return lambda eng, st, fn, blk: sp


def fill_ens(cx):
    t, r = cx.str_arg(0), cx.ret_str()
    L = bv(cx.eng.str_len(cx.st0, t), 64)
    w = cx.st1.g['fill']
    sub = z3.Function('substr', StrS, B64, B64, StrS)
    find = lambda p: z3.Function('strfind', StrS, StrS, B64, B64)(t.z(), strlit('#^#'), p)
    ok = Or(*[z3.And(z3.Or(z3.UGE(p, L), find(p) == NPOS), z3.If(z3.ULT(p, L), r.z() == stl.concat(x, SV(sub(t.z(), p, L - p))).z(), r.z() == x.z())) for x in w[0] for p in w[1]])
    return [('no marker is left over and the rest is kept', Implies(Not(bl(cx.arg(2))), ok))]


def tidied(eng, st, args, ins, mod, name):
    stl.set_str(eng, st, args[0], SV(z3.FreshConst(StrS, 'tidied')))
    return [(st, 'ret', None)]


# ---------------------------------------------------------------- joining a list of texts
class Joining(Wrapping):
    def assume(self, lp):
        pass

    def rk(self, lp):
        return self.keys(lp)[0]

    def entry(self, lp):
        at = lambda k: lp.st.obj(k[0]).cells[k[1]][1]
        ok = len(self.rk(lp)) == 1 and len(lp.iters) == 1
        return [('nothing is written yet', ok and bv(lp.eng.str_len(lp.st, at(self.rk(lp)[0])), 64) == 0), ('from the first text', ok and bv(lp.iters[0][3], 64) == 0)]

    def preserved(self, lp, s2):
        eng = lp.eng
        k = self.rk(lp)
        if len(k) != 1 or len(lp.iters) != 1:
            return [('one text is written', FALSE)]
        r0, r1 = lp.hav[k[0]], s2.obj(k[0][0]).cells[k[0][1]][1]
        (oid, ck, store, i0, i) = lp.iters[0]
        e = stl.get_str(eng, s2, stl.idx_ptr(eng, s2, store, i))
        join, last = (stl.get_str(eng, s2, lp.regs_arg(j)) for j in (1, 2))
        n = bv(lp.n_of(store), 64)
        i2 = bv(eng.pindex(s2, s2.obj(oid).cells[ck][1]), 64)
        with_ = lambda x: stl.concat(stl.concat(r0, e), x).z()
        return [('the next text is written with what separates it, the last one with what ends the list', z3.And(i2 == i + 1, r1.z() == z3.If(i + 1 == n, with_(last), with_(join))))]

    def at_exit(self, lp, s2):
        (oid, ck, store, i0, t) = lp.iters[0]
        s2.g['join'] = (s2.obj(self.rk(lp)[0][0]).cells[self.rk(lp)[0][1]][1], bv(eng_index(lp, s2, oid, ck), 64) == bv(lp.n_of(store), 64))


def eng_index(lp, st, oid, ck):
    return lp.eng.pindex(st, st.obj(oid).cells[ck][1])


def join_loop():
    sp = Joining()
    return lambda eng, st, fn, blk: sp


def join_ens(cx):
    w = cx.st1.g['join']
    return [('every text of the list is written', w[1]), ('and nothing else', cx.ret_str().z() == w[0].z())]
