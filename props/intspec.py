"""specification of integer fields: as terms for the contracts and as Python for the replay oracle"""
import z3
from irv.engine import And, Or, Not, Implies, bl, bv, StrS, ObjS
from irv import base as B

PLEN = dict(int8=1, uint8=1, int16=2, uint16=2, int32=4, uint32=4, int64=8, uint64=8, intvar=10, uintvar=10)
W = 64


def v64(x):
    return z3.BitVecVal(x & (2**64 - 1), 64)


def table(t, vals):
    r = v64(vals[-1])
    for i in range(len(vals) - 2, -1, -1):
        r = z3.If(t == i, v64(vals[i]), r)
    return r


LENS = [1, 1, 2, 2, 4, 4, 8, 8, 10, 10]
TMIN = [-2**7, 0, -2**15, 0, -2**31, 0, -2**63, 0, -2**63, 0]
TMAX = [2**7 - 1, 2**8 - 1, 2**15 - 1, 2**16 - 1, 2**31 - 1, 2**32 - 1, 2**63 - 1, 2**64 - 1, 2**63 - 1, 2**64 - 1]


def max_len(t):
    return table(t, LENS)


def tmin(t):
    return table(t, TMIN)


def tmax(t):
    return table(t, TMAX)


def is_uns(t):
    return Or(*[t == i for i in (1, 3, 5, 7, 9)])


def is_big(t):
    return Or(t == 7, t == 9)


def is_var(t):
    return Or(t == 8, t == 9)


def umax_fixed(b):
    return z3.If(z3.UGE(b, 64), v64(-1), z3.LShR(v64(-1), 64 - b))


def smax_fixed(b):
    return z3.LShR(umax_fixed(b), v64(1)) if False else z3.If(z3.UGE(b, 64), v64(2**63 - 1), z3.LShR(v64(-1), 65 - b))


def smin_fixed(b):
    return -smax_fixed(b) - 1


def var_bits(b):
    n = z3.UDiv(b, v64(8)) * 7
    return z3.If(z3.ULT(n, 64), n, v64(64))


def umax_var(b):
    return umax_fixed(var_bits(b))


def smax_var(b):
    return smax_fixed(var_bits(b))


def smin_var(b):
    return smin_fixed(var_bits(b))


def vmin(t, b):
    return z3.If(is_uns(t), v64(0), z3.If(t == 8, smin_var(b), smin_fixed(b)))


def vmax(t, b):
    return z3.If(t == 9, umax_var(b), z3.If(t == 8, smax_var(b), z3.If(is_uns(t), umax_fixed(b), smax_fixed(b))))


# --- the member functions
def prop(cx, name):
    """(count, text) of a property of *this"""
    import irv.stl as stl
    from irv.engine import strlit, SV
    p = cx.old.ptr('m_props')
    return B.prop_count(cx.eng, cx.st0, p, SV(name), cx.mod, cx.st1)


def prop_str(cx, name):
    """the first text of the property (meaningful when it is given)"""
    import irv.stl as stl
    from irv.engine import SV
    eng, st = cx.eng, cx.st1
    v = stl.get_vec(eng, st, cx.old.ptr('m_props'), stl.node_type('std::string', 'std::string'), cx.mod, 'map', 'std::string', True)
    kt = SV(name).z()
    o = st.obj(v.store)
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(o.ident, kt)
    p = stl.idx_ptr(eng, st, v.store, idx)
    return stl.get_str(eng, st, p.add(stl.pair_off2(eng, cx.mod, ['std::string', 'std::string']))).z()


def given(cx, name):
    """the property is given and its text is not empty"""
    c = prop(cx, name)
    return And(c != 0, B.slen(prop_str(cx, name)) != 0)


def dsl_version(cx, prot=None):
    """language version declared by the schema being parsed"""
    from irv.engine import Ptr
    i = cx.ident(prot if prot is not None else cx.old('m_protocol'))
    f = z3.Function('obs_curr_schema', ObjS, ObjS)
    oid = cx.eng.lazy_obj(cx.st0, f(i), B.N + 'ParseSchemaImpl', 'schema')
    return cx.view(Ptr(oid), B.N + 'ParseSchemaImpl')('m_dslVersion')


def supported(cx, ver, prot=None):
    v = dsl_version(cx, prot)
    return Or(v == 0, z3.UGE(v, ver))


B10 = z3.BitVecVal(0, 32)


def rejected_reports(cx):
    e = cx.err()
    return ('a rejection is reported', Implies(Not(cx.res), bl(e)))


def M(cx, m, post=False):
    return (cx.new if post else cx.old)('m_state.' + m)


def ser_ens(cx):
    g = given(cx, 'serOffset')
    s = prop_str(cx, 'serOffset')
    n = M(cx, 'm_serOffset', True)
    ok = Or(Not(g), B.num_i_ok(s, B10))
    return [('accepted exactly for one well formed number', cx.res == And(z3.ULE(prop(cx, 'serOffset'), 1), ok)),
            ('the offset is the written number, unchanged when not given', Implies(cx.res, n == z3.If(g, B.num_i(s, B10), M(cx, 'm_serOffset')))),
            rejected_reports(cx)]


def len_pre(cx):
    return [('the type is known', z3.ULT(M(cx, 'm_type'), 10)), ('inherited length fits', z3.ULE(M(cx, 'm_length'), max_len(M(cx, 'm_type'))))]


def len_ens(cx):
    t, l0, l1 = M(cx, 'm_type'), M(cx, 'm_length'), M(cx, 'm_length', True)
    g = given(cx, 'length')
    s = prop_str(cx, 'length')
    v = B.num_u(s, B10)
    ok = Or(Not(g), And(B.num_u_ok(s, B10), v != 0, z3.ULE(v, max_len(t)), Or(l0 == 0, l0 == v)))
    return [('accepted exactly for a length between 1 and the size of the type, unchanged by reuse', cx.res == And(z3.ULE(prop(cx, 'length'), 1), ok)),
            ('the length is the written one, else the inherited one, else the one of the type',
             Implies(cx.res, l1 == z3.If(g, v, z3.If(l0 == 0, max_len(t), l0)))),
            rejected_reports(cx)]


obj_kind = z3.Function('obs_obj_kind', ObjS, z3.BitVecSort(32))
field_kind = z3.Function('obs_field_kind', ObjS, z3.BitVecSort(32))
KINDS = ['int', 'enum', 'set', 'float', 'bitfield', 'bundle', 'string', 'data', 'list', 'ref', 'optional', 'variant']


def in_bitfield(cx):
    """the owner of the field is a bitfield"""
    p = cx.old('m_parent')
    i = cx.ident(p)
    return And(Not(bl(p.nul)), obj_kind(i) == 1, field_kind(i) == KINDS.index('bitfield'))


def bit_pre(cx):
    t, l, b = M(cx, 'm_type'), M(cx, 'm_length'), M(cx, 'm_bitLength')
    return [('the type is known', z3.ULT(t, 10)), ('length known', And(l != 0, z3.ULE(l, max_len(t)))), ('inherited bits', Or(b == 0, b == 8 * l))]


def bit_ens(cx):
    t, l, b0, b1 = M(cx, 'm_type'), M(cx, 'm_length'), M(cx, 'm_bitLength'), M(cx, 'm_bitLength', True)
    g = And(given(cx, 'bitLength'), in_bitfield(cx))
    s = prop_str(cx, 'bitLength')
    v = z3.ZeroExt(32, B.num_n(s, B10))
    ok = And(B.num_n_ok(s, B10), v != 0, z3.ULE(v, 8 * l))
    return [('accepted exactly when not used, or one whole number between 1 and the bits of the type, which has a fixed length in a bitfield',
             cx.res == And(z3.ULE(prop(cx, 'bitLength'), 1), Implies(g, ok), Implies(in_bitfield(cx), Not(is_var(t))))),
            ('the bits are the written ones for a bitfield member, else all of them', Implies(cx.res, b1 == z3.If(g, v, 8 * l))),
            rejected_reports(cx)]


lower = z3.Function('obs_lower', StrS, StrS)


def type_of(s):
    """type denoted by a text (10: none)"""
    from irv.engine import strlit
    low = lower(s)
    r = z3.BitVecVal(10, 32)
    for i, n in enumerate(['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'intvar', 'uintvar']):
        r = z3.If(low == strlit(n), z3.BitVecVal(i, 32), r)
    return r


def type_ens(cx):
    t0, t1 = M(cx, 'm_type'), M(cx, 'm_type', True)
    c = prop(cx, 'type')
    t = type_of(prop_str(cx, 'type'))
    must = t0 == 10
    return [('accepted exactly when a known type is given once, or the inherited one is kept',
             cx.res == And(z3.ULE(c, 1), Implies(must, c == 1), Implies(c == 1, And(t != 10, Or(must, t == t0))))),
            ('the type is the written or the inherited one', Implies(cx.res, t1 == z3.If(c == 1, t, t0))),
            rejected_reports(cx)]


def endian_ens(cx):
    e0, e1 = M(cx, 'm_endian'), M(cx, 'm_endian', True)
    from irv.engine import strlit
    g = given(cx, 'endian')
    low = lower(prop_str(cx, 'endian'))
    lit, big = low == strlit('little'), low == strlit('big')
    return [('a written byte order is reported', Implies(And(cx.res, g), e1 == z3.If(lit, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))),
            ('a written byte order is little or big', Implies(g, Implies(cx.res, Or(lit, big)))),
            ('an inherited byte order is kept', Implies(And(cx.res, Not(g), e0 != 2), e1 == e0)),
            rejected_reports(cx)]


def mm_pre(cx):
    t, l, b = M(cx, 'm_type'), M(cx, 'm_length'), M(cx, 'm_bitLength')
    return [('the type is known', z3.ULT(t, 10)), ('1 <= bits <= bits of the type', And(b != 0, z3.ULE(b, 8 * max_len(t)))), ('whole octets for variable length', Implies(is_var(t), And(z3.UGE(b, 8), z3.URem(b, v64(8)) == 0)))]


def ext(x, uns):
    """64-bit pattern as a mathematical integer in 68 bits"""
    return z3.If(uns, z3.ZeroExt(4, x), z3.SignExt(4, x))


def mm_ens(cx):
    t, b, off = M(cx, 'm_type'), M(cx, 'm_bitLength'), M(cx, 'm_serOffset')
    u = is_uns(t)
    lo, hi = ext(vmin(t, b), u), ext(vmax(t, b), u)
    o = z3.SignExt(4, off)
    dlo = z3.If(u, z3.BitVecVal(0, 68), z3.BitVecVal(-2**63, 68))
    dhi = z3.If(u, z3.BitVecVal(2**64 - 1, 68), z3.BitVecVal(2**63 - 1, 68))
    a, z = lo - o, hi - o                   # values whose serialization lies in [lo, hi]
    emin = z3.If(a < dlo, dlo, a)
    emax = z3.If(z > dhi, dhi, z)
    span = ext(tmax(t), u) - ext(tmin(t), u)
    absoff = z3.If(o < 0, -o, o)
    small = z3.ULT(t, 6)
    rej = And(off != 0, Or(And(small, absoff >= span), emin > emax))
    return [('rejected exactly when the offset leaves no serializable value', cx.res == Not(rej)),
            ('the minimum is the smallest serializable value', Implies(cx.res, ext(M(cx, 'm_minValue', True), u) == emin)),
            ('the maximum is the largest serializable value', Implies(cx.res, ext(M(cx, 'm_maxValue', True), u) == emax)),
            ('limits of the type', And(M(cx, 'm_typeAllowedMinValue', True) == tmin(t), M(cx, 'm_typeAllowedMaxValue', True) == tmax(t))),
            rejected_reports(cx)]


# --- Python oracle
def py_range(t, length, bits, off):
    """-> (min, max) as numbers of the type's domain, or None"""
    uns = t.startswith('u')
    var = t.endswith('var')
    n = min((bits // 8) * 7, 64) if var else bits
    lo, hi = (0, 2**n - 1) if uns else (-2**(n - 1), 2**(n - 1) - 1)
    dlo, dhi = (0, 2**64 - 1) if uns else (-2**63, 2**63 - 1)
    i = list(PLEN).index(t)
    if off:
        if i < 6 and abs(off) >= TMAX[i] - TMIN[i]:
            return None
        lo, hi = max(dlo, lo - off), min(dhi, hi - off)
        if lo > hi:
            return None
    return lo, hi


def wrap(v):
    """as reported by a signed 64-bit accessor"""
    return v - 2**64 if v >= 2**63 else v


def py_int(t, length, bits, off, bf):
    ml = PLEN[t]
    if length is not None and not 1 <= length <= ml:
        return None
    ln = length or ml
    nb = 8 * ln
    if bits is not None and bf:
        if t.endswith('var') or not 1 <= bits <= 8 * ln:
            return None
        nb = bits
    r = py_range(t, ln, nb, off)
    if r is None:
        return None
    return dict(t=t, length=ln, minlen=1 if t.endswith('var') else ln, bits=nb, min=wrap(r[0]), max=wrap(r[1]))
