"""Models of the C++ standard library, libxml2 and logging calls that the code under contract makes.
Every model is part of the trusted base and is named in the evidence of the checks that used it."""
import re
import z3
from .engine import (lit_text, lib, PATTERNS, BUILTINS, Call, Unsupported, Halt, NeedFork, Exc, Ptr, NULL, SV, VV, MV, OV, Agg, UNDEF, FnPtr, PInt,
                     Obj, Forall, And, Or, Not, Implies, simp, bv, bl, conc, ObjS, StrS, slen, schr, tkey, kterm, mask, sgn, uid, strlit)


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


R = 'ret'


def ret(c, v=None):
    return [(c.st, 'ret', v)]


def throw(st, ty):
    return (st, 'throw', Exc(ty))


# --------------------------------------------------------------- type text helpers
STR_LONG = ('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>',
            'std::basic_string<char>')
_nt = {}


def ntext(dem):
    r = _nt.get(dem)
    if r is None:
        r = dem.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '').replace('(anonymous namespace)::', '')
        for s in STR_LONG:
            r = r.replace(s, 'std::string')
        r = r.replace(' >', '>').replace(' const&', ' const&')
        _nt[dem] = r
    return r


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(dem, head):
    """template arguments of the first occurrence of head<...> in the demangled text"""
    t = ntext(dem)
    i = t.find(head + '<')
    if i < 0:
        return None
    i += len(head)
    d = 0
    for j in range(i, len(t)):
        if t[j] == '<':
            d += 1
        elif t[j] == '>':
            d -= 1
            if d == 0:
                return split_args(t[i + 1:j])
    return None


def params(dem):
    t = ntext(dem)
    t = re.sub(r'\s*(const|&|&&|noexcept)*\s*$', '', t) if t.endswith('const') else t
    if not t.endswith(')'):
        t = t[:t.rfind(')') + 1]
    d = 0
    for j in range(len(t) - 1, -1, -1):
        if t[j] == ')':
            d += 1
        elif t[j] == '(':
            d -= 1
            if d == 0:
                return split_args(t[j + 1:-1])
    return []


PRIM = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
        'unsigned long': 8, 'double': 8, 'float': 4, 'long long': 8, 'unsigned long long': 8, 'std::size_t': 8, 'std::intmax_t': 8, 'intmax_t': 8}


def clean(t):
    t = t.strip()
    while t.startswith('const '):
        t = t[6:]
    while t.endswith(' const'):
        t = t[:-6]
    return t.strip()


def type_info(eng, mod, t):
    """(size, align) of a type text"""
    t = clean(t)
    if t.endswith('*') or t.endswith('&') or t.startswith('std::unique_ptr<') or '(*)' in re.sub(r'<.*>', '', t):
        return 8, 8
    if t == 'std::string':
        return 32, 8
    if t in PRIM:
        return PRIM[t], PRIM[t]
    if t.startswith('std::pair<'):
        a = targs(t, 'std::pair')
        (s1, a1), (s2, a2) = type_info(eng, mod, a[0]), type_info(eng, mod, a[1])
        o2 = (s1 + a2 - 1) // a2 * a2
        al = max(a1, a2)
        return (o2 + s2 + al - 1) // al * al, al
    if t.startswith('std::vector<'):
        return 24, 8
    if t.startswith(('std::map<', 'std::multimap<', 'std::set<')):
        return 48, 8
    if t.startswith('std::_Rb_tree') and 'iterator' in t:
        return 8, 8
    L = eng.prog.layouts.get(t)
    if L is not None:
        return L.size, 8 if L.size % 8 == 0 else (4 if L.size % 4 == 0 else 1)
    for m in [mod] + list(eng.prog.mods):
        for pre in ('class.', 'struct.'):
            k = '%' + pre + t
            if k in m.types:
                from .llparse import T
                ty = m.named(k) if hasattr(m, 'named') else None
                return m.size(ty), m.align(ty)
    if '::' in t:
        # enum
        return 4, 4
    raise Unsupported('size of type ' + t)


def pair_off2(eng, mod, a):
    (s1, a1), (s2, a2) = type_info(eng, mod, a[0]), type_info(eng, mod, a[1])
    return (s1 + a2 - 1) // a2 * a2


def elem_class(eng, t):
    t = clean(t)
    if t.startswith('std::unique_ptr<'):
        return None
    if t.endswith('*'):
        return None
    return t


def pointee(eng, t):
    t = clean(t)
    if t.startswith('std::unique_ptr<'):
        return clean(targs(t, 'std::unique_ptr')[0])
    if t.endswith('*'):
        return clean(t[:-1])
    return None


# --------------------------------------------------------------- cells of library types
def cell(eng, st, p):
    """(obj, ik, m) after null check"""
    eng.check_null(st, p, 'library object')
    o, ik, m, it = eng.locate(st, p)
    return o, ik, m


def raw_get(eng, st, p, size):
    o, ik, m = cell(eng, st, p)
    c = o.cells.get((ik, m))
    if c is not None:
        return c[1], o, ik, m
    if o.kind == 'store':
        guard_alias(eng, st, p.obj, ik, m)
    for (dk, doff, ln, snap, sp) in reversed(o.regions):
        if dk == ik and doff <= m and m + size <= doff + ln:
            v, _, _, _ = raw_get(eng, snap, sp.add(m - doff), size)
            if v is None:
                return None, o, ik, m
            eng.import_new(st, snap)
            return v, o, ik, m
    return None, o, ik, m


def guard_alias(eng, st, oid, ik, m):
    o = st.obj(oid)
    for (k2, m2) in o.written:
        if m2 == m and k2 != ik:
            if isinstance(k2, int) and isinstance(ik, int):
                continue
            t1 = bv(k2, 64) if isinstance(k2, int) else kterm(k2)
            t2 = bv(ik, 64) if isinstance(ik, int) else kterm(ik)
            if not eng.must(st, t1 != t2):
                raise Unsupported('may-alias vector element read')


def get_str(eng, st, p):
    v, o, ik, m = raw_get(eng, st, p, 32)
    if v is not None:
        if not isinstance(v, SV):
            raise Unsupported('string object holds %r' % (v,))
        return v
    if o.ident is not None:
        ident = eng.cell_ident(st, o, p.obj, ik)
        nm, _ = eng.lazy_name(o, m)
        v = SV(z3.Function('%s:str' % nm, ObjS, StrS)(ident))
        st.wobj(p.obj).cells[(ik, m)] = (32, v)
        return v
    if o.kind == 'glob' and ik is None and m == 0:
        v = eng.dyn_string(o)
        if v is not None:
            st.wobj(p.obj).cells[(ik, m)] = (32, v)
            return v
    raise Unsupported('uninitialised string %s+%d' % (o.name, m))


def set_val(eng, st, p, v):
    eng.check_null(st, p, 'library object')
    eng.put(st, p, v.size, v)


def set_str(eng, st, p, v):
    set_val(eng, st, p, v)


FACTS = {}      # facts about the initial contents, true on every way


def new_store(eng, st, name, elemty, mod, n, ident=None, kind='vec', keyty=None, multi=False):
    S = type_info(eng, mod, elemty)[0]
    data = {'elemty': elemty, 'kind': kind, 'keyty': keyty, 'multi': multi}
    pc = pointee(eng, elemty)
    if pc:
        data['elemcls'] = eng.class_of_text(pc)
    i = st.new(Obj('store', name, ident=ident, cls=elem_class(eng, elemty), stride=S, data=data, ext=ident is not None))
    st.g[('len', i)] = n
    return i


def get_vec(eng, st, p, elemty, mod, kind='vec', keyty=None, multi=False):
    size = 24 if kind == 'vec' else 48
    v, o, ik, m = raw_get(eng, st, p, size)
    if v is not None:
        if not isinstance(v, VV):
            raise Unsupported('container object holds %r' % (v,))
        return v
    if o.ident is not None:
        ident = eng.cell_ident(st, o, p.obj, ik)
        nm, _ = eng.lazy_name(o, m)
        vi = z3.Function('%s:seq' % nm, ObjS, ObjS)(ident)
        n = z3.Function('%s:len' % nm, ObjS, z3.BitVecSort(64))(ident)
        k = ('seqobj', tkey(vi))
        sid = st.g.get(k)
        if sid is None:
            c = z3.ULT(n, 1 << 40)
            st.assume(c)
            if eng.cur is not None and eng.cur.merge:
                FACTS[c.get_id()] = c
            sid = eng.stable(st, (k, elemty, kind), [vi], lambda: new_store(eng, st, o.name + '.' + nm, elemty, mod, n, vi, kind, keyty, multi))
            st.g[('len', sid)] = n
            st.g[k] = sid
        v = vec(sid, n, kind)
        st.wobj(p.obj).cells[(ik, m)] = (size, v)
        return v
    raise Unsupported('uninitialised container %s+%d' % (o.name, m))


class MapV(VV):
    size = 48


def vec(sid, n, kind):
    return VV(sid, n) if kind == 'vec' else MapV(sid, n)


def vec_elem(c):
    a = targs(c.dem, 'std::vector')
    if a is None:
        raise Unsupported('vector type in ' + c.dem[:100])
    return a[0]


def idx_ptr(eng, st, sid, i):
    return eng.elem_ptr(sid, i, st.obj(sid).stride)


def inst(st, sid, t):
    """register an index term so that universal facts over the sequence get instantiated there"""
    l = st.inst.setdefault(sid, [])
    for x in l:
        if x.eq(t):
            return
    l.append(t)


# --------------------------------------------------------------- copy of a value of a library/record type
def copy_elem(eng, st, dst, src, elemty, mod):
    t = clean(elemty)
    if t == 'std::string':
        set_str(eng, st, dst, get_str(eng, st, src))
    elif t.startswith('std::vector<'):
        e = targs(t, 'std::vector')[0]
        set_val(eng, st, dst, copy_vec(eng, st, get_vec(eng, st, src, e, mod), mod))
    elif t.startswith('std::pair<'):
        a = targs(t, 'std::pair')
        copy_elem(eng, st, dst, src, a[0], mod)
        o2 = pair_off2(eng, mod, a)
        copy_elem(eng, st, dst.add(o2), src.add(o2), a[1], mod)
    elif t.startswith('std::unique_ptr<') or t.endswith('*') or t in PRIM:
        sz = type_info(eng, mod, t)[0]
        from .llparse import INT, PTR
        ty = PTR if sz == 8 and t not in PRIM else INT(8 * sz)
        eng.store(st, dst, eng.load(st, src, ty, mod), ty, mod)
    else:
        # record: copy all known fields through a region
        sz = type_info(eng, mod, t)[0]
        eng.memcpy(st, dst, src, sz, mod)


def copy_vec(eng, st, v, mod):
    """value copy: share the store object copy-on-write by cloning"""
    o = st.obj(v.store)
    w = o.clone()
    w.ext = False
    i = st.new(w)
    n = v.n
    st.g[('len', i)] = n
    st.g[('copyof', i)] = v.store
    for k in [v.store]:
        if k in st.inst:
            st.inst[i] = list(st.inst[k])
    # universal facts of the source hold for the copy (same ident => same element terms)
    return type(v)(i, n)


# ================================================================= logging
@lib('commsdsl::parse::parseLogError')
def _log_err(eng, c):
    c.st.g['gh:err'] = True
    c.st.g['gh:logged'] = True
    return ret(c, NULL)


@lib('commsdsl::parse::parseLogWarning')
def _log_warn(eng, c):
    c.st.g['gh:warn'] = True
    return ret(c, NULL)


@lib('commsdsl::parse::parseLogInfo')
def _log_info(eng, c):
    return ret(c, NULL)


@lib('commsdsl::parse::ParseLogWrapper::~ParseLogWrapper', 'commsdsl::parse::ParseLogWrapper::ParseLogWrapper')
def _nop(eng, c):
    return ret(c, c.args[0] if c.args else None)


@lib('commsdsl::parse::ParseLogWrapper::operator<<')
def _log_shl(eng, c):
    return ret(c, c.args[0])


@lib('commsdsl::parse::ParseXmlWrap::parseLogPrefix')
def _logprefix(eng, c):
    set_str(eng, c.st, c.args[0], SV(z3.FreshConst(StrS, 'logprefix')))
    return ret(c)


@lib('commsdsl::gen::GenLogger::genError')
def _gen_err(eng, c):
    c.st.g['gh:err'] = True
    return ret(c)


@lib('commsdsl::gen::GenLogger::genWarning')
def _gen_warn(eng, c):
    c.st.g['gh:warn'] = True
    return ret(c)


@lib('commsdsl::gen::GenLogger::genInfo', 'commsdsl::gen::GenLogger::genDebug')
def _gen_info(eng, c):
    return ret(c)


# ================================================================= runtime
@lib('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_end_catch', '__cxa_free_exception', 'operator delete', 'operator delete[]')
def _rt_nop(eng, c):
    return ret(c, 0 if c.base == '__cxa_atexit' else None)


@lib('__cxa_guard_acquire')
def _guard(eng, c):
    """static local: initialise once.  Each verified function is analysed with the static already or not yet
    initialised giving the same value (its initialiser is executed the first time it is reached)."""
    k = ('guard', c.args[0].key())
    if c.st.g.get(k):
        return ret(c, 0)
    c.st.g[k] = True
    return ret(c, 1)


@lib('__cxa_begin_catch')
def _begin(eng, c):
    return ret(c, c.args[0])


@lib('__clang_call_terminate', 'std::terminate')
def _term(eng, c):
    eng.oblige(c.st, 'std::terminate unreachable', False, 'safety', eng.loc())
    return []


@lib('__cxa_rethrow')
def _rethrow(eng, c):
    return [(c.st, 'throw', getattr(eng, 'curexc', Exc('?')))]


@lib('operator new', 'operator new[]')
def _new(eng, c):
    n = c.args[0]
    i = c.st.new(Obj('heap', 'heap', size=n if isinstance(n, int) else None))
    return ret(c, Ptr(i))


@lib('std::__throw_out_of_range_fmt', 'std::__throw_length_error', 'std::__throw_logic_error', 'std::__throw_bad_alloc', 'std::__throw_bad_array_new_length')
def _thr(eng, c):
    ty = {'std::__throw_out_of_range_fmt': '_ZTISt12out_of_range'}.get(c.base, '_ZTISt11logic_error')
    return [(c.st, 'throw', Exc(ty))]


# ================================================================= std::string
def is_cstr_param(p):
    return p in ('char const*',)


def other_str(eng, c, i, p):
    """string value of argument i with parameter text p"""
    if p.startswith('char const*'):
        return eng.cstr_value(c.st, c.args[i])
    if p.startswith('std::string'):
        return get_str(eng, c.st, c.args[i])
    if p == 'char':
        v = c.args[i]
        if isinstance(v, int):
            return SV(chr(v & 0xff))
        r = z3.Function('strofchar', z3.BitVecSort(8), StrS)(bv(v, 8))
        if not c.st.g.get(('sofc', tkey(r))):
            c.st.g[('sofc', tkey(r))] = True
            c.st.assume(z3.And(slen(r) == 1, schr(r, z3.BitVecVal(0, 64)) == bv(v, 8)))
        return SV(r)
    raise Unsupported('string from ' + p)


def concat(a, b):
    if isinstance(a.v, str) and isinstance(b.v, str):
        return SV(a.v + b.v)
    if isinstance(a.v, str) and a.v == '':
        return b
    if isinstance(b.v, str) and b.v == '':
        return a
    out = parts(a)
    for p in parts(b):
        if out and isinstance(out[-1], str) and isinstance(p, str):
            out[-1] = out[-1] + p
        else:
            out.append(p)
    if len(out) == 1:
        return SV(out[0])
    # concatenation is associative: always built right nested
    r = SV(out[-1]).z()
    for p in reversed(out[:-1]):
        r = strcat(SV(p).z(), r)
    return SV(r)


strcat = z3.Function('strcat', StrS, StrS, StrS)


def parts(a):
    """the concatenated pieces of a text: python strings and terms"""
    v = a.v if isinstance(a, SV) else a
    out = []
    while True:
        if isinstance(v, str):
            h, v = v, None
        elif z3.is_app(v) and v.decl().eq(strcat):
            h, v = v.arg(0), v.arg(1)
            lt = lit_text(h)
            h = lt if lt is not None else h
        else:
            lt = lit_text(v)
            h, v = (lt if lt is not None else v), None
        out.append(h)
        if v is None:
            return out


def do_concat(eng, st, a, b):
    r = concat(a, b)
    if not isinstance(r.v, str):
        k = ('catax', tkey(r.v))
        if not st.g.get(k):
            st.g[k] = True
            st.assume(slen(r.v) == bv(eng.str_len(st, a), 64) + bv(eng.str_len(st, b), 64))
            eng.str_len(st, r)
    return r


@lib('std::basic_string::basic_string')
def _str_ctor(eng, c):
    ps = params(c.dem)
    st = c.st
    if not ps or ps[0].startswith('std::allocator'):
        v = SV('')
    elif ps[0] in ('std::string const&',) and len(ps) == 1:
        v = get_str(eng, st, c.args[1])
    elif ps[0] == 'std::string&&':
        v = get_str(eng, st, c.args[1])
        set_str(eng, st, c.args[1], SV(z3.FreshConst(StrS, 'movedfrom')))
    elif ps[0] == 'char const*' and len(ps) == 2 and 'allocator' in ps[1]:
        v = eng.cstr_value(st, c.args[1])
    elif ps[0] == 'unsigned long' and ps[1] == 'char':
        n, ch = c.args[1], c.args[2]
        if isinstance(n, int) and isinstance(ch, int) and n < 4096:
            v = SV(chr(ch & 255) * n)
        else:
            v = SV(z3.Function('strfill', z3.BitVecSort(64), z3.BitVecSort(8), StrS)(bv(n, 64), bv(ch, 8)))
            st.assume(slen(v.v) == bv(n, 64))
    elif ps[0] in ('std::string const&',) and len(ps) >= 3 and ps[1] == 'unsigned long':
        n = c.args[3] if ps[2] == 'unsigned long' else mask(64)
        return [(s2, 'ret', None) for s2 in substr_into(eng, c, c.args[0], get_str(eng, st, c.args[1]), c.args[2], n)]
    elif '__normal_iterator' in ps[0] or 'char*' in ps[0] or 'char const*' in ps[0]:
        a, b = c.args[1], c.args[2]
        if ps[0] == 'char const*' and ps[1] == 'unsigned long':
            a = c.args[1]
            v0 = eng.cstr_value(st, a)
            n = c.args[2]
            v = sub_val(eng, st, v0, 0, n)
        else:
            oa = st.obj(a.obj)
            if oa.kind != 'chars' or a.obj != b.obj:
                raise Unsupported('string from iterators')
            i, j = eng.pindex(st, a), eng.pindex(st, b)
            v = sub_val(eng, st, oa.data, i, simp(bv(j, 64) - bv(i, 64)) if not (conc(i) and conc(j)) else j - i)
    else:
        raise Unsupported('string constructor ' + ','.join(ps))
    set_str(eng, st, c.args[0], v)
    return ret(c)


def sub_val(eng, st, sv, i, n):
    """substring of n chars from i (already within bounds)"""
    if isinstance(sv.v, str) and isinstance(i, int) and isinstance(n, int):
        return SV(sv.v[i:i + n])
    if isinstance(i, int) and i == 0:
        L = eng.str_len(st, sv)
        if not conc(n) and not conc(L) and simp(n == L) is True:
            return sv
    r = z3.Function('substr', StrS, z3.BitVecSort(64), z3.BitVecSort(64), StrS)(sv.z(), bv(i, 64), bv(n, 64))
    k = ('subax', tkey(r))
    if not st.g.get(k):
        st.g[k] = True
        st.assume(slen(r) == bv(n, 64))
        st.assume((slen(r) == 0) == (r == strlit('')))
        L = bv(eng.str_len(st, sv), 64)
        st.assume(z3.Implies(z3.And(bv(i, 64) == 0, bv(n, 64) == L), r == sv.z()))
        # character view of the slice
        st.g[('subof', tkey(r))] = (sv, i, n)
    return SV(r)


def substr_into(eng, c, dst, sv, pos, n):
    st = c.st
    L = eng.str_len(st, sv)
    outs = []
    if conc(L) and conc(pos):
        if pos > L:
            return_thr = True
            eng.oblige(st, 'substr position in range', False, 'safety', eng.loc())
            return []
    else:
        eng.oblige(st, 'substr position in range', z3.ULE(bv(pos, 64), bv(L, 64)), 'safety', eng.loc())
    if conc(L) and conc(pos) and conc(n):
        nn = min(n, L - pos)
    else:
        avail = bv(L, 64) - bv(pos, 64)
        nn = simp(z3.If(z3.ULT(bv(n, 64), avail), bv(n, 64), avail))
    set_str(eng, st, dst, sub_val(eng, st, sv, pos, nn))
    return [st]


@lib('std::basic_string::substr')
def _substr(eng, c):
    sv = get_str(eng, c.st, c.args[1])
    return [(s, 'ret', None) for s in substr_into(eng, c, c.args[0], sv, c.args[2], c.args[3])]


@lib('std::basic_string::~basic_string', 'std::vector::~vector', 'std::map::~map', 'std::multimap::~multimap', 'std::set::~set', 'std::function::~function',
     'std::basic_stringstream::~basic_stringstream', 'std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::~__new_allocator',
     'std::__new_allocator::__new_allocator', 'std::basic_string::reserve', 'std::vector::reserve', 'std::pair::~pair')
def _dtor(eng, c):
    return ret(c)


@lib('std::basic_string::operator=')
def _str_assign(eng, c):
    p = params(c.dem)[0]
    if p == 'std::string&&':
        v = get_str(eng, c.st, c.args[1])
        if c.args[1].key() != c.args[0].key():
            set_str(eng, c.st, c.args[1], SV(z3.FreshConst(StrS, 'movedfrom')))
    else:
        v = other_str(eng, c, 1, p)
    set_str(eng, c.st, c.args[0], v)
    return ret(c, c.args[0])


@lib('std::basic_string::assign')
def _str_assign2(eng, c):
    ps = params(c.dem)
    if len(ps) == 1:
        v = other_str(eng, c, 1, ps[0])
    elif '__normal_iterator' in ps[0]:
        a, b = c.args[1], c.args[2]
        oa = c.st.obj(a.obj)
        i, j = eng.pindex(c.st, a), eng.pindex(c.st, b)
        v = sub_val(eng, c.st, oa.data, i, simp(bv(j, 64) - bv(i, 64)) if not (conc(i) and conc(j)) else j - i)
    elif ps[0] == 'std::string const&':
        return [(s, 'ret', c.args[0]) for s in substr_into(eng, c, c.args[0], get_str(eng, c.st, c.args[1]), c.args[2], c.args[3])]
    else:
        raise Unsupported('string::assign')
    set_str(eng, c.st, c.args[0], v)
    return ret(c, c.args[0])


@lib('std::basic_string::empty')
def _str_empty(eng, c):
    n = eng.str_len(c.st, get_str(eng, c.st, c.args[0]))
    return ret(c, n == 0 if conc(n) else simp(n == 0))


@lib('std::basic_string::size', 'std::basic_string::length')
def _str_size(eng, c):
    return ret(c, eng.str_len(c.st, get_str(eng, c.st, c.args[0])))


@lib('std::basic_string::c_str', 'std::basic_string::data')
def _str_cstr(eng, c):
    return ret(c, Ptr(chars_obj(eng, c.st, get_str(eng, c.st, c.args[0]))))


def chars_obj(eng, st, sv):
    k = ('chars', sv.v if isinstance(sv.v, str) else tkey(sv.v))
    i = st.g.get(k)
    if i is None:
        i = eng.stable(st, k, [sv.v], lambda: st.new(Obj('chars', 'chars', stride=1, data=sv)))
        st.g[k] = i
        st.g[('len', i)] = eng.str_len(st, sv)
    if st.g.get(('stale', i)):
        st.g[('stale', i)] = False
    return i


def char_at(eng, st, v, k):
    """character k of the text v, expanded structurally (k a term within the bounds)"""
    v = v.v if isinstance(v, SV) else v
    k = bv(k, 64)
    ps = parts(v)
    if len(ps) > 1:
        pos = z3.BitVecVal(0, 64)
        res = None
        rows = []
        for p in ps:
            n = bv(eng.str_len(st, SV(p)), 64)
            rows.append((pos + n, char_at(eng, st, p, simp(k - pos))))
            pos = pos + n
        res = rows[-1][1]
        for (hi, c) in reversed(rows[:-1]):
            res = z3.If(z3.ULT(k, hi), c, res)
        return res
    v = ps[0]
    if isinstance(v, str):
        if len(v) == 1:
            return z3.BitVecVal(ord(v), 8)
        return schr(strlit(v), k)
    if z3.is_app(v):
        nm = v.decl().name()
        if nm == 'strset':
            return z3.If(k == v.arg(1), v.arg(2), char_at(eng, st, v.arg(0), k))
        if nm == 'substr':
            return char_at(eng, st, v.arg(0), simp(v.arg(1) + k))
        if nm == 'strofchar':
            return v.arg(0)
        if nm == 'strfill':
            return v.arg(1)
    # an opaque text: everything known about its characters is known at k
    eng.str_len(st, SV(v))
    inst(st, chars_obj(eng, st, SV(v)), k)
    return schr(v, k)


@lib('std::basic_string::begin', 'std::basic_string::cbegin')
def _str_begin(eng, c):
    return ret(c, Ptr(chars_obj(eng, c.st, get_str(eng, c.st, c.args[0]))))


@lib('std::basic_string::end', 'std::basic_string::cend')
def _str_end(eng, c):
    sv = get_str(eng, c.st, c.args[0])
    return ret(c, eng.elem_ptr(chars_obj(eng, c.st, sv), eng.str_len(c.st, sv), 1))


@lib('std::basic_string::operator[]', 'std::basic_string::front', 'std::basic_string::back')
def _str_idx(eng, c):
    sv = get_str(eng, c.st, c.args[0])
    n = eng.str_len(c.st, sv)
    if c.base.endswith('front'):
        i = 0
    elif c.base.endswith('back'):
        i = simp(bv(n, 64) - 1)
    else:
        i = c.args[1]
    if c.base[-5:] in ('front', ':back'):
        eng.oblige(c.st, 'string not empty', n != 0 if not conc(n) else n > 0, 'safety', eng.loc())
    else:
        eng.oblige(c.st, 'string index in bounds', z3.ULE(bv(i, 64), bv(n, 64)) if not (conc(i) and conc(n)) else i <= n, 'safety', eng.loc())
    co = chars_obj(eng, c.st, sv)
    if not c.dem.endswith('const'):
        c.st.g[('owner', co)] = c.args[0]
    return ret(c, eng.elem_ptr(co, i, 1))


@lib('std::operator==', 'std::operator!=')
def _op_eq(eng, c):
    ps = params(c.dem)
    if len(ps) != 2 or not any('std::string' in p for p in ps) or any('iterator' in p for p in ps) or any('pair' in p for p in ps):
        if len(ps) == 2 and ('_Rb_tree' in ps[0]):
            a = load_iter(eng, c, 0)
            b = load_iter(eng, c, 1)
            r = eng.ptr_eq(c.st, a, b)
            return ret(c, r if c.base.endswith('==') else Not(r))
        return NotImplemented
    a, b = other_str(eng, c, 0, ps[0]), other_str(eng, c, 1, ps[1])
    r = eng.str_eq(a, b)
    return ret(c, r if c.base.endswith('==') else Not(r))


def load_iter(eng, c, i):
    from .llparse import PTR
    return eng.load(c.st, c.args[i], PTR, c.mod)


@lib('std::operator<')
def _op_lt(eng, c):
    ps = params(c.dem)
    if len(ps) == 2 and all(p.startswith('std::string') for p in ps):
        a, b = other_str(eng, c, 0, ps[0]), other_str(eng, c, 1, ps[1])
        return ret(c, str_less(a, b))
    return NotImplemented


def str_less(a, b):
    if isinstance(a.v, str) and isinstance(b.v, str):
        return a.v < b.v
    return z3.Function('strless', StrS, StrS, z3.BoolSort())(a.z(), b.z())


@lib('std::basic_string::compare')
def _str_compare(eng, c):
    ps = params(c.dem)
    a = get_str(eng, c.st, c.args[0])
    if len(ps) == 1:
        b = other_str(eng, c, 1, ps[0])
    elif len(ps) == 3 and ps[2].startswith(('std::string', 'char const*')):
        b = other_str(eng, c, 3, ps[2])
        pos, n = c.args[1], c.args[2]
        L = eng.str_len(c.st, a)
        eng.oblige(c.st, 'compare position in range', (pos <= L) if conc(pos) and conc(L) else z3.ULE(bv(pos, 64), bv(L, 64)), 'safety', eng.loc())
        if conc(L) and conc(pos) and conc(n):
            nn = min(n, L - pos)
        else:
            avail = bv(L, 64) - bv(pos, 64)
            nn = simp(z3.If(z3.ULT(bv(n, 64), avail), bv(n, 64), avail))
        a = sub_val(eng, c.st, a, pos, nn)
    else:
        return NotImplemented
    eq = eng.str_eq(a, b)
    if isinstance(eq, bool) and isinstance(a.v, str) and isinstance(b.v, str):
        return ret(c, 0 if eq else (mask(32) if a.v < b.v else 1))
    lt = bl(str_less(a, b))
    return ret(c, z3.If(bl(eq), z3.BitVecVal(0, 32), z3.If(lt, z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))))


@lib('std::operator+')
def _str_plus(eng, c):
    ps = params(c.dem)
    if len(ps) != 2 or not any('std::string' in p for p in ps):
        return NotImplemented
    a, b = other_str(eng, c, 1, ps[0]), other_str(eng, c, 2, ps[1])
    set_str(eng, c.st, c.args[0], do_concat(eng, c.st, a, b))
    return ret(c)


@lib('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def _str_pluseq(eng, c):
    ps = params(c.dem)
    a = get_str(eng, c.st, c.args[0])
    if len(ps) == 3 and ps[0].startswith('std::string') and ps[1] == 'unsigned long':
        b0, pos, n = get_str(eng, c.st, c.args[1]), c.args[2], c.args[3]
        L = eng.str_len(c.st, b0)
        eng.oblige(c.st, 'append position in range', (pos <= L) if conc(pos) and conc(L) else z3.ULE(bv(pos, 64), bv(L, 64)), 'safety', eng.loc())
        if conc(L) and conc(pos) and conc(n):
            nn = min(n, L - pos)
        else:
            avail = bv(L, 64) - bv(pos, 64)
            nn = simp(z3.If(z3.ULT(bv(n, 64), avail), bv(n, 64), avail))
        b = sub_val(eng, c.st, b0, pos, nn)
    elif len(ps) == 2 and ps[0] == 'unsigned long' and ps[1] == 'char':
        n, ch = c.args[1], c.args[2]
        if isinstance(n, int) and isinstance(ch, int) and n < 4096:
            b = SV(chr(ch & 255) * n)
        else:
            b = SV(z3.Function('strfill', z3.BitVecSort(64), z3.BitVecSort(8), StrS)(bv(n, 64), bv(ch, 8)))
            c.st.assume(slen(b.v) == bv(n, 64))
    elif len(ps) == 2 and ps[0] == 'char const*' and ps[1] == 'unsigned long':
        b = sub_val(eng, c.st, eng.cstr_value(c.st, c.args[1]), 0, c.args[2])
    elif len(ps) != 1:
        return NotImplemented
    else:
        b = other_str(eng, c, 1, ps[0])
    set_str(eng, c.st, c.args[0], do_concat(eng, c.st, a, b))
    return ret(c, c.args[0])


@lib('std::basic_string::clear')
def _str_clear(eng, c):
    set_str(eng, c.st, c.args[0], SV(''))
    return ret(c)


@lib('std::basic_string::swap')
def _str_swap(eng, c):
    a, b = get_str(eng, c.st, c.args[0]), get_str(eng, c.st, c.args[1])
    set_str(eng, c.st, c.args[0], b)
    set_str(eng, c.st, c.args[1], a)
    return ret(c)


FINDS = {'find': 'find', 'rfind': 'rfind', 'find_first_of': 'ffo', 'find_last_of': 'flo', 'find_first_not_of': 'ffno', 'find_last_not_of': 'flno'}


def py_find(kind, s, t, pos):
    N = mask(64)
    if kind == 'find':
        r = s.find(t, pos) if pos <= len(s) else -1
        return r if r >= 0 else N
    if kind == 'rfind':
        r = s.rfind(t, 0, min(len(s), pos + len(t)) if pos < (1 << 40) else len(s))
        return r if r >= 0 else N
    if kind in ('ffo', 'ffno'):
        for i in range(pos, len(s)):
            if (s[i] in t) == (kind == 'ffo'):
                return i
        return N
    for i in range(min(len(s) - 1, pos), -1, -1):
        if (s[i] in t) == (kind == 'flo'):
            return i
    return N


def char_in(set_, ch):
    return Or(*[ch == z3.BitVecVal(ord(x), 8) for x in sorted(set(set_))])


@lib(*['std::basic_string::' + k for k in FINDS])
def _str_find(eng, c):
    kind = FINDS[c.base.split('::')[-1]]
    ps = params(c.dem)
    st = c.st
    s = get_str(eng, st, c.args[0])
    if len(ps) == 3:
        t = eng.cstr_value(st, c.args[1])
        n = c.args[3]
        if not (isinstance(t.v, str) and isinstance(n, int)):
            raise Unsupported('find(ptr,pos,n)')
        t = SV(t.v[:n])
    else:
        t = other_str(eng, c, 1, ps[0])
    pos = c.args[2] if len(c.args) > 2 else 0
    if isinstance(s.v, str) and isinstance(t.v, str) and isinstance(pos, int):
        return ret(c, py_find(kind, s.v, t.v, pos))
    r = z3.Function('str' + kind, StrS, StrS, z3.BitVecSort(64), z3.BitVecSort(64))(s.z(), t.z(), bv(pos, 64))
    L = bv(eng.str_len(st, s), 64)
    P = bv(pos, 64)
    k = ('findax', tkey(r))
    if not st.g.get(k):
        st.g[k] = True
        npos = z3.BitVecVal(mask(64), 64)
        single = isinstance(t.v, str)
        if kind in ('find', 'ffo', 'ffno'):
            tl = bv(eng.str_len(st, t), 64) if kind == 'find' else z3.BitVecVal(1, 64)
            st.assume(z3.Or(r == npos, z3.And(z3.UGE(r, P), z3.ULE(r + tl, L), z3.ULE(r, L))))
        else:
            st.assume(z3.Or(r == npos, z3.And(z3.ULE(r, P), z3.ULT(r, L))))
        sid = chars_obj(eng, st, s)
        if single and kind == 'find' and len(t.v) == 3:
            st.assume(z3.Or(r == npos, z3.And(*[schr(s.z(), simp(r + i)) == ord(x) for i, x in enumerate(t.v)])))
        if single and (kind != 'find' or len(t.v) == 1) and kind not in ('rfind',):
            neg = kind in ('ffno', 'flno')
            hit = bl(char_in(t.v, schr(s.z(), r)))
            st.assume(z3.Or(r == npos, z3.Not(hit) if neg else hit))
            v = z3.FreshConst(z3.BitVecSort(64), 'ci')
            h2 = bl(char_in(t.v, schr(s.z(), v)))
            body = h2 if neg else z3.Not(h2)
            if kind in ('find', 'ffo', 'ffno'):
                hi = simp(z3.If(r == npos, L, r))
                st.foralls.append(Forall(P, hi, v, body, [], sid))
            else:
                last = z3.If(z3.ULT(P, L), P + 1, L)
                lo = simp(z3.If(r == npos, z3.BitVecVal(0, 64), r + 1))
                st.foralls.append(Forall(lo, last, v, body, [], sid))
            inst(st, sid, r)
            if z3.is_app(s.z()) and s.z().decl().name() == 'substr' and kind in ('ffo', 'ffno'):
                b, off = s.z().arg(0), s.z().arg(1)         # the same about the characters of the text it is part of
                v2 = z3.FreshConst(z3.BitVecSort(64), 'ci')
                h3 = bl(char_in(t.v, schr(b, v2)))
                st.foralls.append(Forall(simp(P + off), simp(hi + off), v2, h3 if neg else z3.Not(h3), [], chars_obj(eng, st, SV(b))))
    return ret(c, r)


@lib('std::basic_string::erase', 'std::basic_string::insert', 'std::basic_string::replace')
def _str_mut(eng, c):
    ps = params(c.dem)
    s = get_str(eng, c.st, c.args[0])
    cs = isinstance(s.v, str)
    if c.base.endswith('erase') and len(ps) == 2 and ps[0] == 'unsigned long':
        pos, n = c.args[1], c.args[2]
        if cs and conc(pos) and conc(n):
            set_str(eng, c.st, c.args[0], SV(s.v[:pos] + s.v[pos + n:]))
            return ret(c, c.args[0])
        L = bv(eng.str_len(c.st, s), 64)
        P = bv(pos, 64)
        eng.oblige(c.st, 'erase position in range', z3.ULE(P, L), 'safety', eng.loc())
        avail = L - P
        nn = z3.If(z3.ULT(bv(n, 64), avail), bv(n, 64), avail)
        a = sub_val(eng, c.st, s, 0, pos)
        b = sub_val(eng, c.st, s, simp(P + nn), simp(avail - nn))
        set_str(eng, c.st, c.args[0], do_concat(eng, c.st, a, b))
        return ret(c, c.args[0])
    if c.base.endswith('insert') and len(c.args) == 4 and len(ps) == 3 and all('iterator' in p for p in ps):
        # a range of the characters of a text put at the end
        at, a, b = c.args[1:]
        if a.obj is None or a.obj != b.obj or c.st.obj(a.obj).kind != 'chars' or at.obj is None or c.st.obj(at.obj).kind != 'chars':
            raise Unsupported('insertion of a range')
        L = bv(eng.str_len(c.st, s), 64)
        i, j = bv(eng.pindex(c.st, a), 64), bv(eng.pindex(c.st, b), 64)
        src = c.st.obj(a.obj).data
        eng.oblige(c.st, 'insertion at the end', at.obj == chars_obj(eng, c.st, s) and simp(bv(eng.pindex(c.st, at), 64) == L), 'safety', eng.loc())
        eng.oblige(c.st, 'the range is one of the text', z3.And(z3.ULE(i, j), z3.ULE(j, bv(eng.str_len(c.st, src), 64))), 'safety', eng.loc())
        set_str(eng, c.st, c.args[0], do_concat(eng, c.st, s, sub_val(eng, c.st, src, simp(i), simp(j - i))))
        return ret(c, c.args[0])
    raise Unsupported('string mutation ' + c.base)


# ================================================================= numbers from strings
B32 = z3.BitVecSort(32)
num_ok = z3.Function('num_ok', StrS, B32, z3.BoolSort())      # (text, base): a well formed prefix exists (strtoll/strtoull)
num_big = z3.Function('num_big', StrS, B32, z3.IntSort(), z3.BoolSort())   # its value is out of range of the kind
num_ll = z3.Function('num_ll', StrS, B32, z3.BitVecSort(64))
num_ull = z3.Function('num_ull', StrS, B32, z3.BitVecSort(64))
num_d = z3.Function('num_d', StrS, z3.Float64())
num_end = z3.Function('num_end', StrS, B32, z3.BitVecSort(64))     # index after the longest well formed prefix
NUMKIND = {'stoul': 1, 'stoull': 1, 'stoll': 2, 'stol': 2, 'stod': 3, 'stoi': 4}


@lib('std::stoul', 'std::stoull', 'std::stoll', 'std::stol', 'std::stod', 'std::stoi')
def _sto(eng, c):
    st = c.st
    s = get_str(eng, st, c.args[0])
    kind = c.base.split('::')[-1]
    outs = []
    base = z3.BitVecVal(-1, 32) if kind == 'stod' else bv(c.args[2], 32)
    ok = num_ok(s.z(), base)
    big = num_big(s.z(), base, z3.IntVal(NUMKIND[kind]))
    for cond, exc in ((z3.Not(ok), '_ZTISt16invalid_argument'), (z3.And(ok, big), '_ZTISt12out_of_range')):
        if eng.feasible(st, cond):
            s2 = st.copy()
            s2.assume(cond)
            outs.append((s2, 'throw', Exc(exc)))
    st.assume(z3.And(ok, z3.Not(big)))
    if eng.feasible(st):
        if kind in ('stoul', 'stoull'):
            v = num_ull(s.z(), base)
        elif kind in ('stoll', 'stol'):
            v = num_ll(s.z(), base)
        elif kind == 'stoi':
            raise Unsupported('stoi')
        else:
            v = num_d(s.z())
        if len(c.args) > 1 and isinstance(c.args[1], Ptr) and c.args[1].obj is not None:
            if c.args[1].nul is not False:
                raise Unsupported('sto* with a possibly null index')
            e = num_end(s.z(), base)
            st.assume(z3.And(z3.ULE(e, bv(eng.str_len(st, s), 64)), z3.UGE(e, z3.BitVecVal(1, 64))))
            eng.store(st, c.args[1], e, _I_(64), c.mod)
        outs.append((st, 'ret', v))
    return outs


from .llparse import INT as _I_


def dec_text(v, signed):
    """text of an integer as printed by streams / to_string"""
    f = z3.Function('sdec' if signed else 'udec', z3.BitVecSort(64), StrS)
    return f(v)


@lib('std::to_string')
def _to_string(eng, c):
    p = params(c.dem)[0]
    v = c.args[1]
    signed = not p.startswith('unsigned')
    w = 8 * PRIM[p]
    if isinstance(v, int):
        sv = SV(str(sgn(v, w) if signed else v))
    else:
        if w < 64:
            v = z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v)
        t = dec_text(v, signed)
        sv = SV(t)
        eng.str_len(c.st, sv)
        c.st.assume(slen(t) != 0)
    set_str(eng, c.st, c.args[0], sv)
    return ret(c)


# ================================================================= std::vector
def this_vec(eng, c, i=0):
    return get_vec(eng, c.st, c.args[i], vec_elem(c), c.mod)


@lib('std::vector::vector')
def _vec_ctor(eng, c):
    ps = params(c.dem)
    st = c.st
    e = vec_elem(c)
    if not ps or (len(ps) == 1 and ps[0].startswith('std::allocator')):
        sid = new_store(eng, st, 'vec', e, c.mod, 0)
        set_val(eng, st, c.args[0], VV(sid, 0))
        return ret(c)
    if ps[0].startswith('std::vector<') and len(ps) == 1:
        v = get_vec(eng, st, c.args[1], e, c.mod)
        if ps[0].endswith('&&'):
            set_val(eng, st, c.args[0], v)
            set_val(eng, st, c.args[1], VV(new_store(eng, st, 'movedvec', e, c.mod, 0), 0))
        else:
            set_val(eng, st, c.args[0], copy_vec(eng, st, v, c.mod))
        return ret(c)
    if ps[0].startswith('std::initializer_list'):
        # (ptr begin, i64 n) passed as two scalars
        b, n = c.args[1], c.args[2]
        if not isinstance(n, int):
            raise Unsupported('initializer_list size')
        sid = new_store(eng, st, 'vec', e, c.mod, n)
        S = st.obj(sid).stride
        for i in range(n):
            copy_elem(eng, st, Ptr(sid, i * S), b.add(i * S), e, c.mod)
        set_val(eng, st, c.args[0], VV(sid, n))
        return ret(c)
    raise Unsupported('vector constructor ' + ','.join(ps))


@lib('std::vector::size')
def _vec_size(eng, c):
    return ret(c, this_vec(eng, c).n)


@lib('std::vector::empty')
def _vec_empty(eng, c):
    n = this_vec(eng, c).n
    return ret(c, n == 0 if conc(n) else simp(n == 0))


@lib('std::vector::begin', 'std::vector::cbegin')
def _vec_begin(eng, c):
    v = this_vec(eng, c)
    return ret(c, Ptr(v.store))


@lib('std::vector::end', 'std::vector::cend')
def _vec_end(eng, c):
    v = this_vec(eng, c)
    return ret(c, eng.elem_ptr(v.store, v.n, c.st.obj(v.store).stride))


@lib('std::vector::operator[]', 'std::vector::at')
def _vec_at(eng, c):
    v = this_vec(eng, c)
    i = c.args[1]
    n = v.n
    if conc(i) and conc(n):
        if not i < n:
            eng.oblige(c.st, 'vector index in bounds', False, 'safety', eng.loc())
            return []
    else:
        eng.oblige(c.st, 'vector index in bounds', z3.ULT(bv(i, 64), bv(n, 64)), 'safety', eng.loc())
    return ret(c, idx_ptr(eng, c.st, v.store, i))


@lib('std::vector::front', 'std::vector::back')
def _vec_front(eng, c):
    v = this_vec(eng, c)
    n = v.n
    eng.oblige(c.st, 'vector not empty', n > 0 if conc(n) else n != 0, 'safety', eng.loc())
    i = 0 if c.base.endswith('front') else (n - 1 if conc(n) else simp(n - 1))
    inst(c.st, v.store, bv(i, 64))
    return ret(c, idx_ptr(eng, c.st, v.store, i))


def vec_append(eng, c, p):
    """returns pointer to a new last element"""
    v = get_vec(eng, c.st, p, vec_elem(c), c.mod)
    n = v.n
    ep = idx_ptr(eng, c.st, v.store, n)
    n2 = n + 1 if conc(n) else simp(n + 1)
    set_val(eng, c.st, p, VV(v.store, n2))
    c.st.g[('len', v.store)] = n2
    w = c.st.wobj(v.store)
    return ep


@lib('std::vector::push_back', 'std::vector::emplace_back')
def _vec_push_hooked(eng, c):
    h = getattr(eng.cur, 'pushes', None) if eng.cur is not None else None
    r = _vec_push(eng, c)
    p = c.args[0]
    if h and p.obj is not None and p.term is None:
        for (s, k, v) in r:
            nm = eng.pretty_member(s.obj(p.obj), p.off)
            for m, f in h.items():
                if k == 'ret' and (nm == m or nm.endswith('.' + m)):
                    for (what, cond) in f(eng, s, c):
                        eng.oblige(s, what, cond, 'invariant', eng.loc())
    return r


def push_pointer(eng, c, e, args):
    """a pointer appended to a sequence of unknown length: a new sequence with the same elements before it"""
    from .llparse import PTR
    st = c.st
    if len(args) != 1 or not (e.startswith('std::unique_ptr<') or e.endswith('*')):
        return None
    v = this_vec(eng, c)
    o = st.obj(v.store)
    if conc(v.n) or o.kind != 'store' or o.ident is None or o.written:
        return None
    x = eng.load(st, args[0], PTR, c.mod)
    if not isinstance(x, Ptr) or x.obj is None or x.off or x.term is not None:
        return None
    ident = z3.FreshConst(ObjS, 'push')
    n = bv(v.n, 64)
    sid = new_store(eng, st, 'push', e, c.mod, simp(n + 1), ident)
    w = st.wobj(sid)
    w.ext = False
    w.data = dict(o.data) if isinstance(o.data, dict) else o.data
    q = z3.FreshConst(z3.BitVecSort(64), 'pi')
    st.foralls.append(Forall(0, n, q, elem_of(ident, q) == elem_of(o.ident, q), [], sid))
    xi = eng.publish(st, x, c.mod)
    ep = eng.elem_ptr(sid, simp(n), o.stride)
    y = eng.load(st, ep, PTR, c.mod)
    st.assume(eng.ident_of(st, Ptr(y.obj)) == xi)
    if y.nul is False:
        eng.oblige(st, 'no null element is appended', z3.Not(bl(x.nul)), 'safety', eng.loc())
    else:
        st.assume(bl(y.nul) == bl(x.nul))
    for k in list(st.inst.get(v.store, ())):
        inst(st, sid, k)
    if e.startswith('std::unique_ptr<'):
        eng.store(st, args[0], NULL, PTR, c.mod)
    set_val(eng, st, c.args[0], VV(sid, simp(n + 1)))
    return ret(c, ep)


def _vec_push(eng, c):
    e = clean(vec_elem(c))
    args = c.args[1:]
    st = c.st
    r = push_pointer(eng, c, e, args)
    if r is not None:
        return r
    ep = vec_append(eng, c, c.args[0])
    w = st.wobj(ep.obj)
    if not w.ext:
        w.ext = True      # track writes so that aliasing reads are detected
    if not args:
        if e == 'std::string':
            set_str(eng, st, ep, SV(''))
        elif e.startswith('std::vector<'):
            ee = targs(e, 'std::vector')[0]
            set_val(eng, st, ep, VV(new_store(eng, st, 'vec', ee, c.mod, 0), 0))
        else:
            r = run_ctor(eng, c, e, ep, [])
            if r is None:
                raise Unsupported('emplace_back() of ' + e)
            return [(s, k, ep if k == 'ret' else v) for (s, k, v) in r]
        return ret(c, ep)
    ps = params(c.dem)
    if len(args) == 1:
        from .llparse import PTR
        pt = clean(re.sub(r'(&&|&)$', '', ps[0]).strip())
        if e.startswith('std::unique_ptr<'):
            if pt.endswith('*'):
                eng.store(st, ep, eng.load(st, args[0], PTR, c.mod), PTR, c.mod)
            else:
                v = eng.load(st, args[0], PTR, c.mod)
                eng.store(st, ep, v, PTR, c.mod)
                eng.store(st, args[0], NULL, PTR, c.mod)
            return ret(c, ep)
        if pt == e:
            copy_elem(eng, st, ep, args[0], e, c.mod)
            return ret(c, ep)
        if e == 'std::string':
            if pt.startswith('char const') or pt.startswith('char ['):
                set_str(eng, st, ep, eng.cstr_value(st, args[0]))
                return ret(c, ep)
        if e.endswith('*'):
            eng.store(st, ep, eng.load(st, args[0], PTR, c.mod), PTR, c.mod)
            return ret(c, ep)
    if e.startswith('std::pair<') and len(args) == 2:
        a = targs(e, 'std::pair')
        o2 = pair_off2(eng, c.mod, a)
        for q, at, src, pp in ((ep, a[0], args[0], ps[0]), (ep.add(o2), a[1], args[1], ps[1])):
            if clean(re.sub(r'(&&|&)$', '', pp).strip()) == clean(at):
                copy_elem(eng, st, q, src, at, c.mod)
            else:
                raise Unsupported('emplace_back pair conversion')
        return ret(c, ep)
    r = run_ctor(eng, c, e, ep, args)
    if r is None:
        raise Unsupported('emplace_back of %s from %s' % (e, ps))
    return [(s, k, ep if k == 'ret' else v) for (s, k, v) in r]


def run_ctor(eng, c, cls, p, args):
    base = cls + '::' + cls.split('::')[-1]
    fs = [f for f in eng.prog.lookup(base) if len(f_params(f)) == len(args) + 1]
    if not fs:
        return None
    if len(fs) > 1:
        return None
    return eng.run_fn(c.st, fs[0], [p] + list(args))


def f_params(f):
    f.ensure()
    return f.params


@lib('std::vector::clear')
def _vec_clear(eng, c):
    e = vec_elem(c)
    set_val(eng, c.st, c.args[0], VV(new_store(eng, c.st, 'vec', e, c.mod, 0), 0))
    return ret(c)


@lib('std::vector::pop_back')
def _vec_pop(eng, c):
    v = this_vec(eng, c)
    n = v.n
    eng.oblige(c.st, 'vector not empty', n > 0 if conc(n) else n != 0, 'safety', eng.loc())
    n2 = n - 1 if conc(n) else simp(n - 1)
    w = c.st.obj(v.store).clone()
    i = c.st.new(w)
    c.st.g[('len', i)] = n2
    set_val(eng, c.st, c.args[0], VV(i, n2))
    return ret(c)


@lib('std::vector::operator=')
def _vec_assign(eng, c):
    e = vec_elem(c)
    ps = params(c.dem)
    v = get_vec(eng, c.st, c.args[1], e, c.mod)
    if ps[0].endswith('&&'):
        set_val(eng, c.st, c.args[0], v)
        set_val(eng, c.st, c.args[1], VV(new_store(eng, c.st, 'movedvec', e, c.mod, 0), 0))
    else:
        set_val(eng, c.st, c.args[0], copy_vec(eng, c.st, v, c.mod))
    return ret(c, c.args[0])


@lib('std::vector::swap')
def _vec_swap(eng, c):
    a, b = this_vec(eng, c, 0), this_vec(eng, c, 1)
    set_val(eng, c.st, c.args[0], b)
    set_val(eng, c.st, c.args[1], a)
    return ret(c)


def seq_fresh(eng, st, old, name, n):
    """a new sequence of the same element type with unconstrained contents"""
    o = st.obj(old)
    ident = z3.FreshConst(ObjS, name)
    i = st.new(Obj('store', name, ident=ident, cls=o.cls, stride=o.stride, data=o.data))
    st.g[('len', i)] = n
    return i


@lib('std::vector::insert')
def _vec_insert(eng, c):
    v = this_vec(eng, c)
    ps = params(c.dem)
    e = clean(vec_elem(c))
    st = c.st
    pos = c.args[1]
    # insertion at the end of a concretely known vector / single element
    i = eng.pindex(st, pos)
    if len(ps) == 2 and conc(i) and conc(v.n):
        o = st.obj(v.store)
        sid = new_store(eng, st, 'vec', e, c.mod, v.n + 1)
        w = st.wobj(sid)
        for (k, m), cv in o.cells.items():
            w.cells[(k if k < i else k + 1, m)] = cv
        copy_elem(eng, st, Ptr(sid, i * o.stride), c.args[2], e, c.mod)
        set_val(eng, st, c.args[0], VV(sid, v.n + 1))
        return ret(c, Ptr(sid, i * o.stride))
    if len(ps) == 3 and conc(i) and conc(v.n) and i == v.n:
        a, b = c.args[2], c.args[3]
        so = st.obj(a.obj)
        x, y = eng.pindex(st, a), eng.pindex(st, b)
        if conc(x) and conc(y):
            o = st.obj(v.store)
            sid = new_store(eng, st, 'vec', e, c.mod, v.n + y - x)
            w = st.wobj(sid)
            w.cells.update(o.cells)
            for k in range(y - x):
                copy_elem(eng, st, Ptr(sid, (v.n + k) * o.stride), Ptr(a.obj, (x + k) * o.stride), e, c.mod)
            set_val(eng, st, c.args[0], VV(sid, v.n + y - x))
            return ret(c, Ptr(sid, i * o.stride))
        if v.n == 0 and conc(x) and x == 0:
            # whole sequence copied
            cp = copy_vec(eng, st, VV(a.obj, y), c.mod)
            set_val(eng, st, c.args[0], cp)
            return ret(c, Ptr(cp.store))
    if len(ps) == 3 and tterm(bv(i, 64)).eq(tterm(bv(v.n, 64))):
        # a range appended to a sequence: the elements of both, at shifted positions
        a, b = c.args[2], c.args[3]
        sid0, lo, hi = seq_bounds(eng, c, a, b)
        so, o = st.obj(sid0), st.obj(v.store)
        if sid0 == v.store or so.kind != 'store' or (so.ident is None and not (conc(hi) and conc(lo) and hi == lo)) or (so.written and so.ident is not None) or \
                clean(so.data['elemty']) != e or (o.written and not (conc(v.n) and v.n == 0)):
            raise Unsupported('vector::insert of a written range')
        eng.oblige(st, 'inserted range is valid', z3.ULE(bv(lo, 64), bv(hi, 64)), 'safety', eng.loc())
        n0 = bv(v.n, 64)
        m = simp(bv(hi, 64) - bv(lo, 64))
        n2 = simp(n0 + m)
        st.assume(z3.ULT(n2, 1 << 42))
        ident = z3.FreshConst(ObjS, 'append')
        sid = new_store(eng, st, 'append', e, c.mod, n2, ident)
        st.wobj(sid).ext = False
        q = z3.FreshConst(z3.BitVecSort(64), 'ai')
        if not (conc(v.n) and v.n == 0):
            if o.ident is None:
                raise Unsupported('vector::insert to a concrete sequence')
            st.foralls.append(Forall(0, n0, q, elem_of(ident, q) == elem_of(o.ident, q), [], sid))
        st.foralls.append(Forall(n0, n2, q, elem_of(ident, q) == elem_of(so.ident, q - n0 + bv(lo, 64)), [], sid))
        for k in list(st.inst.get(v.store, ())):
            inst(st, sid, k)
            if st.foralls and any(fa.store == sid0 for fa in st.foralls):
                inst(st, sid0, simp(k - n0 + bv(lo, 64)))
        for k in list(st.inst.get(sid0, ()))[:8]:
            inst(st, sid, simp(k - bv(lo, 64) + n0))
        set_val(eng, st, c.args[0], VV(sid, n2))
        return ret(c, eng.elem_ptr(sid, simp(n0), o.stride))
    raise Unsupported('vector::insert')


def tterm(t):
    return z3.simplify(t)


def elem_of(ident, i):
    return z3.Function('elem', ObjS, z3.BitVecSort(64), ObjS)(ident, i)


def carry_facts(st, sid, old, new, n):
    """facts about every element hold for every element of a permutation"""
    def only(e, var, seen):
        if e.get_id() in seen:
            return True
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() == 'elem' and e.num_args() == 2 and e.arg(0).eq(old):
            return e.arg(1).eq(var)
        if e.eq(old):
            return False
        return all(only(x, var, seen) for x in e.children())
    out = []
    for fa in st.foralls:
        if fa.store == sid and conc(fa.lo) and fa.lo == 0 and bv(fa.hi, 64).eq(bv(n, 64)) and only(fa.body, fa.var, set()):
            out.append(Forall(0, fa.hi, fa.var, z3.substitute(fa.body, (old, new)), fa.bound, sid))
    st.foralls = [fa for fa in st.foralls if fa.store != sid] + out


def sorted_at(ident, i):
    """where the element of a position before the sort is"""
    n = ident.decl().name()
    return z3.Function('perm_%s' % n, z3.BitVecSort(64), z3.BitVecSort(64))(i) if n.startswith('sorted') else i


@lib('std::sort')
def _sort(eng, c):
    """the elements in an order in which no later element is less than an earlier one (the comparator is run on pairs of positions
    the contract names); it must be a strict weak ordering"""
    st = c.st
    a, b = c.args[0], c.args[1]
    if isinstance(a, Ptr) and a.obj is None and isinstance(b, Ptr) and b.obj is None:
        return ret(c)
    sid, lo, hi = seq_bounds(eng, c, a, b)
    o = st.obj(sid)
    n = st.g.get(('len', sid))
    if o.kind != 'store' or n is None or not (conc(lo) and lo == 0 and tterm(bv(hi, 64)).eq(tterm(bv(n, 64)))):
        raise Unsupported('sort of a part')
    if o.ident is None:
        if conc(n) and n <= 1:
            return ret(c)
        raise Unsupported('sort of a concrete sequence')
    if o.written:
        raise Unsupported('sort of a written sequence')
    lam = lambda_fn(eng, c)
    clo = closure_arg(c, 2) if len(c.args) > 2 else Ptr(st.new(Obj('local', 'closure', size=16)))      # an empty closure is not passed
    if lam is None:
        raise Unsupported('sort without a known comparator')

    def less(s, i, j):
        f = eng.prog.find(lam[1], lam[0])
        f.ensure()
        args = [clo]
        for q, pp in zip((i, j), f.params[-2:]):
            ep = idx_ptr(eng, s, sid, q)
            t = o.data['elemty']
            byval = pp[1].k == 'int' or (pp[1].k == 'ptr' and clean(t).endswith('*') and 'align' not in str(pp[2]) and 'dereferenceable' not in str(pp[2]))
            args.append(eng.load(s, ep, pp[1], c.mod) if byval else ep)
        if len(f.params) == 2:
            args = args[1:]
        n0 = len(s.pc)
        tr, cov, extra = [], [], []
        for (s2, k, v) in eng.run_fn(s.copy(), f, args):
            if k != 'ret':
                raise Unsupported('comparator throws')
            pure_check(eng, s, s2)
            g = z3.And([bl(x) for x in s2.pc[n0:]]) if len(s2.pc) > n0 else z3.BoolVal(True)
            tr.append(z3.And(g, bl(v)))
        return z3.Or(tr) if tr else z3.BoolVal(False)
    nn = bv(n, 64)
    # the comparator, on three arbitrary elements
    x, y, w = [z3.FreshConst(z3.BitVecSort(64), 'cmp') for _ in range(3)]
    s = st.copy()
    for q in (x, y, w):
        s.assume(z3.ULT(q, nn))
        inst(s, sid, q)
    eng.oblige(s, 'the comparator is irreflexive', z3.Not(less(s, x, x)), 'safety', eng.loc())
    xy, yx, yw, xw = less(s, x, y), less(s, y, x), less(s, y, w), less(s, x, w)
    eng.oblige(s, 'the comparator is asymmetric', z3.Not(z3.And(xy, yx)), 'safety', eng.loc())
    eng.oblige(s, 'the comparator is transitive', z3.Implies(z3.And(xy, yw), xw), 'safety', eng.loc())
    wy, wx = less(s, w, y), less(s, w, x)
    eng.oblige(s, 'incomparable elements are equivalent', z3.Implies(z3.And(z3.Not(xy), z3.Not(yx), z3.Not(yw), z3.Not(wy)), z3.And(z3.Not(xw), z3.Not(wx))), 'safety', eng.loc())
    old = o.ident
    new = z3.FreshConst(ObjS, 'sorted')
    ob = st.wobj(sid)
    ob.ident, ob.cells, ob.written = new, {}, frozenset()
    ob.data = dict(ob.data)
    carry_facts(st, sid, old, new, n)
    perm = z3.Function('perm_%s' % new.decl().name(), z3.BitVecSort(64), z3.BitVecSort(64))
    at = list(st.inst.get(sid, ()))
    st.inst[sid] = []
    spec = getattr(eng.cur, 'sort_at', None)
    olds, extra = ([], lambda p: []) if spec is None else spec(eng, st)
    ts = at + [t for t in olds if not any(t.eq(u) for u in at)]
    for t in ts:
        st.assume(z3.Implies(z3.ULT(t, nn), z3.And(z3.ULT(perm(t), nn), elem_of(new, perm(t)) == elem_of(old, t))))
        inst(st, sid, perm(t))
    for i in range(len(ts)):
        for j in range(i):
            st.assume(z3.Implies(z3.And(z3.ULT(ts[i], nn), z3.ULT(ts[j], nn), ts[i] != ts[j]), perm(ts[i]) != perm(ts[j])))
    ps = []
    for t in extra(perm):
        if not any(t.eq(u) for u in ps):
            ps.append(t)
    for t in ps:
        inst(st, sid, t)
    for p in ps:
        for q in ps:
            if not p.eq(q):
                s3 = st.copy()
                s3.assume(z3.And(z3.ULT(p, q), z3.ULT(q, nn)))
                st.assume(z3.Implies(z3.And(z3.ULT(p, q), z3.ULT(q, nn)), z3.Not(less(s3, q, p))))
    # neighbours
    from .engine import consts_of
    v = z3.FreshConst(z3.BitVecSort(64), 'sv')
    s3 = st.copy()
    s3.assume(z3.And(z3.ULT(v, nn), z3.UGE(v, 1)))
    try:
        body = z3.Not(less(s3, v, simp(v - 1)))
    except Unsupported:
        return ret(c)
    st.foralls.append(Forall(1, n, v, body, [x for x in consts_of(body) if '!' in x.decl().name() and created_after(x, v) and not x.eq(v)], sid))
    return ret(c)


# iterators of sequences: __normal_iterator is a struct with one pointer; its member functions are executed from IR.

# ================================================================= maps
class KeyTy(str):
    """key type of a container ordered by a user defined comparator: keys are the same when the comparator orders them neither way"""
    comp = None


def same_class(keyty, key):
    """what identifies a key in the container"""
    comp = getattr(keyty, 'comp', None)
    if comp is None or not isinstance(key, SV):
        return key
    s = key.z()
    return SV(z3.Function('keyclass_' + comp, s.sort(), s.sort())(s))


def map_info(c):
    r = map_info0(c)
    a = targs(c.dem, 'std::multimap' if r[2] else ('std::set' if r[1] == 'bool' and c.base.startswith('std::set::') else 'std::map'))
    i = 1 if a is not None and r[1] == 'bool' and c.base.startswith('std::set::') else 2
    if a is not None and len(a) > i and not clean(a[i]).startswith(('std::less<', 'std::allocator<')):
        k = KeyTy(r[0])
        k.comp = clean(a[i])
        return k, r[1], r[2]
    return r


def map_info0(c):
    t = ntext(c.dem)
    if t.startswith('std::set<') or c.base.startswith('std::set::'):
        return targs(c.dem, 'std::set')[0], 'bool', False       # a set is a map to nothing
    for h in ('std::multimap', 'std::map'):
        a = targs(c.dem, h)
        if a is not None and t.find(h + '<') >= 0:
            ia, ib = t.find('std::multimap<'), t.find('std::map<')
            if ia >= 0 and (ib < 0 or ia < ib):
                a = targs(c.dem, 'std::multimap')
                return a[0], a[1], True
            a = targs(c.dem, 'std::map')
            return a[0], a[1], False
    raise Unsupported('map type ' + c.dem[:80])


def node_type(k, v):
    return 'std::pair<%s const, %s>' % (clean(k), clean(v))


def this_map(eng, c, i=0):
    k, v, multi = map_info(c)
    return get_vec(eng, c.st, c.args[i], node_type(k, v), c.mod, 'map', k, multi)


def key_at(eng, st, sid, i, keyty, mod):
    """key of node i : SV or int/BV"""
    p = idx_ptr(eng, st, sid, i)
    kt = clean(keyty)
    if kt == 'std::string':
        return get_str(eng, st, p)
    from .llparse import INT
    sz = type_info(eng, mod, kt)[0]
    return eng.load(st, p, INT(8 * sz), mod)


def key_arg(eng, c, p, keyty):
    kt = clean(keyty)
    if kt == 'std::string':
        return get_str(eng, c.st, p)
    from .llparse import INT
    return eng.load(c.st, p, INT(8 * type_info(eng, c.mod, kt)[0]), c.mod)


def key_eq(eng, a, b):
    if isinstance(a, SV):
        return eng.str_eq(a, b)
    if conc(a) and conc(b):
        return a == b
    w = a.size() if z3.is_expr(a) else b.size()
    return simp(bv(a, w) == bv(b, w))


def key_term(k):
    return k.z() if isinstance(k, SV) else (bv(k, 64) if conc(k) else k)


@lib('std::map::map', 'std::multimap::multimap', 'std::set::set')
def _map_ctor(eng, c):
    ps = params(c.dem)
    k, v, multi = map_info(c)
    st = c.st
    nt = node_type(k, v)
    if not ps:
        set_val(eng, st, c.args[0], MapV(new_store(eng, st, 'map', nt, c.mod, 0, None, 'map', k, multi), 0))
        return ret(c)
    if ps[0].startswith('std::initializer_list'):
        b, n = c.args[1], c.args[2]
        sid = new_store(eng, st, 'map', nt, c.mod, 0, None, 'map', k, multi)
        S = st.obj(sid).stride
        cnt = 0
        seen = []
        for i in range(n):
            copy_elem(eng, st, Ptr(sid, cnt * S), b.add(i * S), nt, c.mod)
            kk = key_at(eng, st, sid, cnt, k, c.mod)
            if not multi:
                dup = False
                for s in seen:
                    q = key_eq(eng, s, kk)
                    if q is True:
                        dup = True
                    elif q is not False:
                        raise Unsupported('symbolic key in map initialiser')
                if dup:
                    continue
            seen.append(kk)
            cnt += 1
        st.g[('len', sid)] = cnt
        set_val(eng, st, c.args[0], MapV(sid, cnt))
        return ret(c)
    if ps[0].startswith(('std::map<', 'std::multimap<')):
        m = this_map(eng, c, 1)
        if ps[0].endswith('&&'):
            set_val(eng, st, c.args[0], m)
            set_val(eng, st, c.args[1], MapV(new_store(eng, st, 'map', nt, c.mod, 0, None, 'map', k, multi), 0))
        else:
            set_val(eng, st, c.args[0], copy_vec(eng, st, m, c.mod))
        return ret(c)
    raise Unsupported('map constructor ' + ','.join(ps))


@lib('std::map::operator=', 'std::multimap::operator=')
def _map_assign(eng, c):
    ps = params(c.dem)
    m = this_map(eng, c, 1)
    k, v, multi = map_info(c)
    if ps[0].endswith('&&'):
        set_val(eng, c.st, c.args[0], m)
        set_val(eng, c.st, c.args[1], MapV(new_store(eng, c.st, 'map', node_type(k, v), c.mod, 0, None, 'map', k, multi), 0))
    else:
        set_val(eng, c.st, c.args[0], copy_vec(eng, c.st, m, c.mod))
    return ret(c, c.args[0])


@lib('std::set::clear', 'std::map::clear', 'std::multimap::clear')
def _map_clear(eng, c):
    k, v, multi = map_info(c)
    set_val(eng, c.st, c.args[0], MapV(new_store(eng, c.st, 'map', node_type(k, v), c.mod, 0, None, 'map', k, multi), 0))
    return ret(c)


@lib('std::set::begin', 'std::map::begin', 'std::multimap::begin', 'std::map::cbegin', 'std::multimap::cbegin')
def _map_begin(eng, c):
    m = this_map(eng, c)
    return ret(c, Ptr(m.store))


@lib('std::set::end', 'std::map::end', 'std::multimap::end', 'std::map::cend', 'std::multimap::cend')
def _map_end(eng, c):
    m = this_map(eng, c)
    return ret(c, eng.elem_ptr(m.store, m.n, c.st.obj(m.store).stride))


@lib('std::set::size', 'std::map::size', 'std::multimap::size')
def _map_size(eng, c):
    return ret(c, this_map(eng, c).n)


@lib('std::set::empty', 'std::map::empty', 'std::multimap::empty')
def _map_empty(eng, c):
    n = this_map(eng, c).n
    return ret(c, n == 0 if conc(n) else simp(n == 0))


def map_find(eng, st, m, keyty, key, mod):
    """-> list of (state, index)   index==n when absent"""
    sid, n = m.store, m.n
    o = st.obj(sid)
    if conc(n) and o.ident is None:
        res = []
        neg = []
        for i in range(n):
            e = key_eq(eng, same_class(keyty, key_at(eng, st, sid, i, keyty, mod)), same_class(keyty, key))
            if e is True:
                if not neg or eng.feasible(st, And(*neg)):
                    s2 = st.copy() if res or neg else st
                    if neg:
                        s2.assume(And(*neg))
                    res.append((s2, i))
                return res
            if e is False:
                continue
            cond = And(e, *neg)
            if eng.feasible(st, cond):
                s2 = st.copy()
                s2.assume(cond)
                res.append((s2, i))
            neg.append(Not(e))
        c = And(*neg)
        if c is True or eng.feasible(st, c):
            st.assume(c)
            res.append((st, n))
        return res
    kt = key_term(same_class(keyty, key))
    ver = o.ident if o.ident is not None else z3.Const('obj!%d' % sid, ObjS)
    if o.written:
        raise Unsupported('find in a modified symbolic map')
    present(eng, st, m, keyty, key, mod)
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(ver, kt)
    k = ('mapax', sid, tkey(idx))
    if not st.g.get(k):
        st.g[k] = True
        st.assume(z3.ULE(idx, bv(n, 64)))
        q = key_at(eng, st, sid, idx, keyty, mod)
        st.assume(z3.Implies(z3.ULT(idx, bv(n, 64)), bl(key_eq(eng, same_class(keyty, q), same_class(keyty, key)))))
        inst(st, sid, idx)
        # absent: no node carries the key
        v = z3.FreshConst(z3.BitVecSort(64), 'mi')
        kq = key_uf(eng, st, sid, v, keyty)
        if kq is not None and getattr(keyty, 'comp', None):
            kq = same_class(keyty, SV(kq)).z()
        if kq is not None:
            st.foralls.append(Forall(0, simp(z3.If(idx == bv(n, 64), bv(n, 64), z3.BitVecVal(0, 64))), v, kq != kt, [], sid))
    return [(st, idx)]


def key_uf(eng, st, sid, v, keyty):
    o = st.obj(sid)
    ident = z3.Function('elem', ObjS, z3.BitVecSort(64), ObjS)(o.ident, v)
    nm, _ = eng.lazy_name(o, 0)
    if clean(keyty) == 'std::string':
        return z3.Function('%s:str' % nm, ObjS, StrS)(ident)
    w = 8 * type_info(eng, eng.prog.mods[0], keyty)[0]
    return z3.Function('%s:i%d' % (nm, w), ObjS, z3.BitVecSort(w))(ident)


@lib('std::set::find', 'std::map::find', 'std::multimap::find')
def _map_find(eng, c):
    k, v, multi = map_info(c)
    m = this_map(eng, c)
    key = key_arg(eng, c, c.args[1], k)
    S = c.st.obj(m.store).stride
    return [(s, 'ret', eng.elem_ptr(m.store, i, S)) for (s, i) in map_find(eng, c.st, m, k, key, c.mod)]


@lib('std::map::lower_bound', 'std::multimap::lower_bound')
def _map_lower_bound(eng, c):
    k, v, multi = map_info(c)
    m = this_map(eng, c)
    key = key_arg(eng, c, c.args[1], k)
    S = c.st.obj(m.store).stride
    out = []
    for (s, i) in map_find(eng, c.st, m, k, key, c.mod):
        if conc(i):
            if i == m.n and i != 0:
                raise Unsupported('lower_bound of an absent key')
            out.append((s, 'ret', eng.elem_ptr(m.store, i, S)))
            continue
        n = bv(m.n, 64)
        o = s.obj(m.store)
        kt = key_term(same_class(k, key))
        # position of the first key that is not less: the key itself when present, else some other element or the end
        other = z3.Function('maplb_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(o.ident if o.ident is not None else z3.Const('obj!%d' % m.store, ObjS), kt)
        s.assume(z3.ULE(other, n))
        inst(s, m.store, other)
        out.append((s, 'ret', eng.elem_ptr(m.store, simp(z3.If(z3.ULT(i, n), i, other)), S)))
    return out


@lib('std::map::equal_range', 'std::multimap::equal_range')
def _map_equal_range(eng, c):
    """the elements with the key stand together, from the first one on"""
    k, v, multi = map_info(c)
    m = this_map(eng, c)
    key = key_arg(eng, c, c.args[1], k)
    S = c.st.obj(m.store).stride
    o = c.st.obj(m.store)
    if conc(m.n) and o.ident is None:
        if m.n:
            raise Unsupported('equal_range of a local map')
        p = eng.elem_ptr(m.store, 0, S)
        return [(c.st, 'ret', Agg([p, p]))]
    kt = key_term(same_class(k, key))
    n = bv(m.n, 64)
    (st, idx), = map_find(eng, c.st, m, k, key, c.mod)
    cnt = z3.Function('mapcnt_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(o.ident, kt)
    lo = z3.Function('maper_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(o.ident, kt)
    st.assume(z3.And(z3.ULE(cnt, n), (cnt == 0) == (idx == n), z3.ULE(lo, n), z3.Implies(idx != n, lo == idx), z3.ULE(lo + cnt, n), z3.UGE(lo + cnt, lo)))
    w = z3.FreshConst(z3.BitVecSort(64), 'er')
    kq = key_uf(eng, st, m.store, w, k)
    if kq is not None:
        if getattr(k, 'comp', None):
            kq = same_class(k, SV(kq)).z()
        st.foralls.append(Forall(lo, simp(lo + cnt), w, kq == kt, [], m.store))
    inst(st, m.store, lo)
    return [(st, 'ret', Agg([eng.elem_ptr(m.store, lo, S), eng.elem_ptr(m.store, simp(lo + cnt), S)]))]


@lib('std::set::count', 'std::map::count', 'std::multimap::count')
def _map_count(eng, c):
    k, v, multi = map_info(c)
    m = this_map(eng, c)
    key = key_arg(eng, c, c.args[1], k)
    o = c.st.obj(m.store)
    if conc(m.n) and o.ident is None:
        r = 0
        sym = None
        for i in range(m.n):
            e = key_eq(eng, same_class(k, key_at(eng, c.st, m.store, i, k, c.mod)), same_class(k, key))
            if e is True:
                r += 1
            elif e is not False:
                t = z3.If(e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
                sym = t if sym is None else sym + t
        return ret(c, r if sym is None else simp(sym + r))
    kt = key_term(same_class(k, key))
    cnt = z3.Function('mapcnt_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(o.ident, kt)
    (st, idx), = map_find(eng, c.st, m, k, key, c.mod)
    st.assume(z3.And(z3.ULE(cnt, bv(m.n, 64)), (cnt == 0) == (idx == bv(m.n, 64))))
    return [(st, 'ret', cnt)]


@lib('std::set::insert', 'std::set::emplace', 'std::map::insert', 'std::map::emplace', 'std::multimap::insert', 'std::multimap::emplace')
def _map_insert(eng, c):
    k, v, multi = map_info(c)
    ps = params(c.dem)
    m = this_map(eng, c)
    st = c.st
    o = st.obj(m.store)
    S = o.stride
    n = m.n
    isset = c.base.startswith('std::set::')
    if isset:
        src1, src2, t1, t2 = c.args[1], None, clean(re.sub(r'(&&|&)$', '', ps[0]).strip()), None
    elif len(ps) == 1:
        # pair argument
        pt = clean(re.sub(r'(&&|&)$', '', ps[0]).strip())
        a = targs(pt, 'std::pair')
        if a is None:
            raise Unsupported('map insert of ' + pt)
        src1, src2 = c.args[1], c.args[1].add(pair_off2(eng, c.mod, a))
        t1, t2 = a
    elif len(ps) == 2 and 'iterator' not in ps[0]:
        src1, src2 = c.args[1], c.args[2]
        t1, t2 = [clean(re.sub(r'(&&|&)$', '', p).strip()) for p in ps]
    else:
        raise Unsupported('map insert ' + ','.join(ps))
    key = SV(eng.cstr_value(st, src1).v) if t1.startswith('char') and clean(k) == 'std::string' else key_arg(eng, c, src1, k)
    hook_insert(eng, c, m, key, src2, v)
    if not (conc(m.n) and o.ident is None):
        return map_insert_sym(eng, c, k, v, multi, m, key, src2)
    outs = []
    if not multi:
        found = map_find(eng, st, m, k, key, c.mod)
    else:
        found = [(st, n)]
    for (s2, i) in found:
        if i != n:
            outs.append((s2, 'ret', Agg([Ptr(m.store, i * S), False])))
            continue
        # keep key order for concrete keys
        w = s2.wobj(m.store)
        w.ext = True
        dp = Ptr(m.store, n * S)
        if isinstance(key, SV):
            set_str(eng, s2, dp, key)
        else:
            eng.put(s2, dp, type_info(eng, c.mod, k)[0], key)
        o2 = pair_off2(eng, c.mod, [k, v])
        if isset:
            pass
        elif clean(t2) == clean(v):
            copy_elem(eng, s2, dp.add(o2), src2, v, c.mod)
        elif clean(v) == 'std::string' and t2.startswith('char'):
            set_str(eng, s2, dp.add(o2), eng.cstr_value(s2, src2))
        else:
            raise Unsupported('map value conversion %s from %s' % (v, t2))
        s2.g[('len', m.store)] = n + 1
        set_val(eng, s2, c.args[0], MapV(m.store, n + 1))
        outs.append((s2, 'ret', Ptr(m.store, n * S) if multi else Agg([Ptr(m.store, n * S), True])))
    return outs


def hook_insert(eng, c, m, key, src, valty):
    """obligations a contract attaches to insertions into a member container (preservation of its invariant)"""
    h = getattr(eng.cur, 'inserts', None) if eng.cur is not None else None
    if not h:
        return
    p = c.args[0]
    if p.obj is None or p.term is not None:
        return
    nm = eng.pretty_member(c.st.obj(p.obj), p.off)
    for k, f in h.items():
        if nm == k or nm.endswith('.' + k):
            for (what, cond) in f(eng, c.st, c, m, key, src):
                eng.oblige(c.st, what, cond, 'invariant', eng.loc())


def map_idx(st, sid, kt):
    o = st.obj(sid)
    return z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(o.ident if o.ident is not None else z3.Const('obj!%d' % sid, ObjS), kt)


def present(eng, st, m, keyty, key, mod):
    """the map has an element with the key"""
    o = st.obj(m.store)
    if conc(m.n) and o.ident is None:
        return Or(*[key_eq(eng, same_class(keyty, key_at(eng, st, m.store, i, keyty, mod)), same_class(keyty, key)) for i in range(m.n)]) if m.n else False
    kt = key_term(same_class(keyty, key))
    p = z3.ULT(map_idx(st, m.store, kt), bv(m.n, 64))
    up = o.data.get('upd')
    if up is not None:       # result of an insertion
        om, k0 = up
        st.assume(p == z3.Or(bl(key_eq(eng, same_class(keyty, k0), same_class(keyty, key))), bl(present(eng, st, om, keyty, key, mod))))
    return p


def map_insert_sym(eng, c, k, v, multi, m, key, src):
    """the result is another map: the elements of the old one and the inserted one, unless (no multimap) the key is present"""
    st = c.st
    outs = []
    old = present(eng, st, m, k, key, c.mod)
    cases = [(st, False)]
    if not multi and old is not False:
        cases = []
        if eng.feasible(st, old):
            s2 = st.copy()
            s2.assume(old)
            cases.append((s2, True))
        if eng.feasible(st, Not(old)):
            st.assume(Not(old))
            cases.append((st, False))
    for (s2, dup) in cases:
        S = s2.obj(m.store).stride
        if dup:
            (s3, i), = map_find(eng, s2, m, k, key, c.mod)
            outs.append((s3, 'ret', Agg([eng.elem_ptr(m.store, i, S), False])))
            continue
        n2 = simp(bv(m.n, 64) + 1)
        o = s2.obj(m.store)
        sid = new_store(eng, s2, o.name + "'", node_type(k, v), c.mod, n2, z3.FreshConst(ObjS, 'mapins'), 'map', k, multi)
        s2.obj(sid).data['upd'] = (m, key)
        nm = MapV(sid, n2)
        kt = key_term(same_class(k, key))
        ix = map_idx(s2, sid, kt)
        s2.assume(z3.ULT(ix, n2))
        set_val(eng, s2, c.args[0], nm)
        it = eng.elem_ptr(sid, ix, S)
        outs.append((s2, 'ret', it if multi else Agg([it, True])))
    return outs


@pattern(r'^std::_Rb_tree(_const)?_iterator::operator(->|\*)$')
def _rb_deref(eng, c):
    from .llparse import PTR
    p = eng.load(c.st, c.args[0], PTR, c.mod)
    if isinstance(p, Ptr) and p.obj is not None:
        o = c.st.obj(p.obj)
        if o.kind == 'store':
            n = c.st.g.get(('len', p.obj))
            i = eng.pindex(c.st, p)
            if n is not None:
                ok = (i < n) if conc(i) and conc(n) else z3.ULT(bv(i, 64), bv(n, 64))
                eng.oblige(c.st, 'map iterator dereferenceable', ok, 'safety', eng.loc())
    return ret(c, p)


@pattern(r'^std::_Rb_tree(_const)?_iterator::operator(\+\+|--)$')
def _rb_inc(eng, c):
    from .llparse import PTR
    p = eng.load(c.st, c.args[0], PTR, c.mod)
    S = c.st.obj(p.obj).stride
    d = S if c.base.endswith('++') else -S
    q = p.add(d)
    eng.store(c.st, c.args[0], q, PTR, c.mod)
    if 'int)' in ntext(c.dem)[-6:]:
        return ret(c, p)
    return ret(c, c.args[0])


# ================================================================= algorithms over sequences
def seq_bounds(eng, c, a, b):
    if a.obj is None or b.obj is None or a.obj != b.obj:
        raise Unsupported('algorithm over unknown range')
    return a.obj, eng.pindex(c.st, a), eng.pindex(c.st, b)


def lambda_fn(eng, c, targ_text=None):
    """operator() of the closure type used by this algorithm instantiation"""
    # found through the call graph of the instantiation itself: the call inside is to `...::operator()(…) const`
    seen = set()

    def search(f, depth):
        if f is None or f.name in seen or depth > 12:
            return None
        seen.add(f.name)
        f.ensure()
        for b in f.order if isinstance(f.order, list) else f.blocks:
            for ins in f.blocks[b]:
                if ins.op in ('call', 'invoke'):
                    cal = ins.x[0] if ins.op == 'invoke' else ins.x
                    if cal.k != 'glob':
                        continue
                    nm = cal.v[1:]
                    d = eng.prog.dem.get(nm, nm)
                    if nm.startswith('_ZZ') and d == nm and re.search(r'\d\$_\d+cl', nm):
                        return nm, f.mod        # generic lambda (not demangled by llvm-cxxfilt)
                    if ('lambda' in d or re.search(r'\$_\d+', d)) and eng.prog.base(nm).strip().endswith('operator()'):
                        if not eng.prog.base(nm).startswith('__gnu_cxx::__ops'):
                            return nm, f.mod
                    g = eng.prog.find(f.mod, nm)
                    bb = eng.prog.base(nm)
                    if g is not None and (bb.startswith('std::') or bb.startswith('__gnu_cxx')):
                        r = search(g, depth + 1)
                        if r:
                            return r
        return None
    return search(c.f, 0)


def pred_outcomes(eng, c, st, lam, clo, ep):
    """run the predicate on one element: list of (state, z3 bool)"""
    nm, mod = lam
    f = eng.prog.find(mod, nm)
    f.ensure()
    arg = ep
    # by-value small parameter?
    pt = f.params[1][1] if len(f.params) > 1 else None
    if pt is not None and pt.k == 'int':
        arg = eng.load(st, ep, pt, mod)
    res = eng.run_fn(st, f, [clo, arg])
    out = []
    for (s2, k, v) in res:
        if k != 'ret':
            raise Unsupported('predicate throws')
        out.append((s2, bl(v) if not isinstance(v, bool) else v))
    return out


def pure_check(eng, before, after, reports=None):
    """the predicate changes nothing (reports: may report errors, noted in the list)"""
    for key, why in eng.diff_cells(before, after):
        raise Unsupported('predicate with side effects')
    for k in set(before.g) | set(after.g):
        if isinstance(k, str) and k.startswith('gh:') and before.g.get(k) is not after.g.get(k):
            if k == 'gh:err' and reports is not None:
                reports.append(k)
                continue
            raise Unsupported('predicate with ghost side effects')


def reported_before(st):
    """calls of a predicate may have reported errors"""
    e = z3.FreshConst(z3.BoolSort(), 'err')
    st.assume(z3.Implies(bl(st.g.get('gh:err', False)), e))
    st.g['gh:err'] = e


def pred_formula(eng, c, st, lam, clo, ep, reports=None):
    """(state with definitional facts merged, formula)  when predicate is pure; merges branches into one formula"""
    n0, nf = len(st.pc), len(st.foralls)
    base = st.copy()
    outs = pred_outcomes(eng, c, base, lam, clo, ep)
    parts = []
    cov = []
    for (s2, v) in outs:
        pure_check(eng, st, s2, reports)
        g = z3.And([bl(x) for x in s2.pc[n0:]] + nested_facts(s2.foralls[nf:])) if len(s2.pc) > n0 else z3.BoolVal(True)
        parts.append(z3.And(g, bl(v)))
        cov.append(z3.And(g, z3.Not(bl(v))))
    return (z3.Or(parts) if parts else z3.BoolVal(False)), (z3.Or(cov) if cov else z3.BoolVal(False)), outs


def nested_facts(fas):
    """what an algorithm inside the predicate tells about the elements of its own sequence"""
    out = []
    for fa in fas:
        if not fa.bound:
            out.append(z3.ForAll([fa.var], Implies(z3.And(z3.ULE(bv(fa.lo, 64), fa.var), z3.ULT(fa.var, bv(fa.hi, 64))), fa.body)))
    return out


@lib('std::find_if', 'std::find_if_not', 'std::all_of', 'std::any_of', 'std::none_of')
def _find_if(eng, c):
    kind = c.base.split('::')[-1]
    lam = lambda_fn(eng, c)
    if lam is None:
        raise Unsupported('predicate of ' + kind)
    st = c.st
    a, b, clo = c.args[0], c.args[1], closure_arg(c, 2)
    return find_core(eng, c, kind, lam, a, b, clo)


def closure_arg(c, k):
    """address of the closure object passed as the k-th argument (small closures arrive by value in registers)"""
    if len(c.args) <= k:
        return None
    st = c.st
    nm = ''
    if c.f is not None:
        c.f.ensure()
        nm = c.f.params[k][0] if len(c.f.params) > k else ''
    if '.coerce' in nm or not isinstance(c.args[k], Ptr):
        i = st.new(Obj('local', 'closure', size=16))
        st.wobj(i).cells[(None, 0)] = (8, c.args[k])
        if nm.rstrip('"').endswith('.coerce0') and len(c.args) > k + 1:
            st.wobj(i).cells[(None, 8)] = (8, c.args[k + 1])
        return Ptr(i)
    return c.args[k]


def find_core(eng, c, kind, lam, a, b, clo):
    st = c.st
    sid, lo, hi = seq_bounds(eng, c, a, b)
    want = kind in ('find_if', 'any_of', 'none_of')     # searching an element with pred == want
    S = st.obj(sid).stride
    outs = []

    def finish(s2, idx, found):
        if kind in ('find_if', 'find_if_not'):
            outs.append((s2, 'ret', eng.elem_ptr(sid, idx, S)))
        elif kind == 'any_of':
            outs.append((s2, 'ret', found))
        else:
            outs.append((s2, 'ret', not found))
    if conc(lo) and conc(hi) and hi - lo <= 64:
        work = [(st, lo)]
        while work:
            s, i = work.pop()
            if i == hi:
                finish(s, hi, False)
                continue
            for (s2, v) in pred_outcomes(eng, c, s, lam, clo, idx_ptr(eng, s, sid, i)):
                pv = v if want else Not(v)
                pv = simp(pv) if not isinstance(pv, bool) else pv
                if pv is True:
                    finish(s2, i, True)
                elif pv is False:
                    work.append((s2, i + 1))
                else:
                    if eng.feasible(s2, pv):
                        s3 = s2.copy()
                        s3.assume(pv)
                        finish(s3, i, True)
                    if eng.feasible(s2, Not(pv)):
                        s2.assume(Not(pv))
                        work.append((s2, i + 1))
        return outs
    # symbolic length: generic element + universally quantified summary
    lo_, hi_ = bv(lo, 64), bv(hi, 64)
    eng.oblige(st, 'algorithm range is valid', z3.ULE(lo_, hi_), 'safety', eng.loc())
    v = z3.FreshConst(z3.BitVecSort(64), 'qi')
    gs = st.copy()
    gs.assume(z3.And(z3.ULE(lo_, v), z3.ULT(v, hi_)))
    reports = []
    ft, ff, _ = pred_formula(eng, c, gs, lam, clo, idx_ptr(eng, gs, sid, v), reports)
    hitf, missf = (ft, ff) if want else (ff, ft)
    from .engine import consts_of, consts_of_cached
    pre = set()
    for p in st.pc:
        pre |= consts_of_cached(p)
    bound = [x for x in consts_of(missf) if '!' in x.decl().name() and not x.eq(v) and x not in pre and not x.decl().name().startswith(('lit!', 'obj!'))]
    # known symbols of the closure / arguments are not bound: keep only those created while running the predicate
    bound = [x for x in bound if created_after(x, v)]
    # miss everywhere
    s1 = st.copy()
    if reports:
        reported_before(s1)
        reported_before(st)
    s1.foralls.append(Forall(lo_, hi_, v, missf, bound, sid))
    # hit at k
    k = z3.FreshConst(z3.BitVecSort(64), 'qk')
    s2 = st
    s2.assume(z3.And(z3.ULE(lo_, k), z3.ULT(k, hi_)))
    inst(s2, sid, k)
    hits = []
    for (s3, pv) in pred_outcomes(eng, c, s2, lam, clo, idx_ptr(eng, s2, sid, k)):
        pv = pv if want else Not(pv)
        if pv is False or not eng.feasible(s3, None if pv is True else pv):
            continue
        s3.assume(pv)
        s3.foralls.append(Forall(lo_, k, v, missf, bound, sid))
        finish(s3, k, True)
    if eng.feasible(s1):
        finish(s1, hi, False)
    return outs


def created_after(x, ref):
    def num(t):
        try:
            return int(t.decl().name().rsplit('!', 1)[1])
        except ValueError:
            return -1
    return num(x) > num(ref)


@lib('std::transform')
def _transform(eng, c):
    """appending to an empty container what the function makes of every element (an object, possibly new)"""
    from .llparse import PTR
    st = c.st
    t = ntext(c.dem)
    if len(c.args) < 3 or 'std::back_insert_iterator<std::vector<' not in t:
        raise Unsupported('transform to ' + t[:80])
    lam = lambda_fn(eng, c)
    if lam is None:
        raise Unsupported('function of transform')
    dty = targs(t[t.index('std::back_insert_iterator<std::vector<'):], 'std::vector')[0]
    dst = c.args[2]
    a, b = c.args[0], c.args[1]
    d = get_vec(eng, st, dst, dty, c.mod)
    if not (d.n == 0 if conc(d.n) else eng.must(st, bv(d.n, 64) == 0)):
        raise Unsupported('transform to a container with elements')
    if isinstance(a, Ptr) and a.obj is None and isinstance(b, Ptr) and b.obj is None:
        return ret(c, dst)
    if not clean(dty).startswith('std::unique_ptr<') and not clean(dty).endswith('*'):
        raise Unsupported('transform to ' + dty)
    sid, lo, hi = seq_bounds(eng, c, a, b)
    if not (conc(lo) and lo == 0):
        raise Unsupported('transform of a part')
    f = eng.prog.find(lam[1], lam[0])
    f.ensure()
    clo = closure_arg(c, 3) if len(c.args) > 3 else Ptr(st.new(Obj('local', 'closure', size=16)))

    def run(s, i):
        """-> (state, pointer made of element i)"""
        out = s.new(Obj('local', 'made', size=8))
        ps = f.params
        sret = 'sret' in str(ps[0][2])
        args = ([Ptr(out)] if sret else []) + [clo, idx_ptr(eng, s, sid, i)]
        if len(args) != len(ps):
            raise Unsupported('parameters of the function of transform')
        res = [(s2, v) for (s2, k, v) in eng.run_fn(s, f, args) if k == 'ret'] or None
        if res is None or len(res) != 1:
            raise Unsupported('outcomes of the function of transform')
        s2, v = res[0]
        return s2, eng.load(s2, Ptr(out), PTR, c.mod) if sret else v
    if conc(hi) and hi <= 16:
        sto = new_store(eng, st, 'made', dty, c.mod, hi)
        for i in range(hi):
            st, p = run(st, i)
            eng.store(st, idx_ptr(eng, st, sto, i), p, PTR, c.mod)
        st.g[('len', sto)] = hi
        set_val(eng, st, dst, vec(sto, hi, 'vec'))
        return [(st, 'ret', dst)]
    n = bv(hi, 64)
    v = z3.FreshConst(z3.BitVecSort(64), 'tv')
    gs = st.copy()
    gs.assume(z3.ULT(v, n))
    inst(gs, sid, v)
    s2, p = run(gs.copy(), v)
    pure_check(eng, gs, s2)
    if not isinstance(p, Ptr) or p.obj is None or p.term is not None or p.off:
        raise Unsupported('result of the function of transform')
    made, nul = eng.ident_of(s2, Ptr(p.obj)), bl(p.nul)
    new = z3.FreshConst(ObjS, 'made')
    sto = new_store(eng, st, 'made', dty, c.mod, n, new)
    q = eng.load(st, idx_ptr(eng, st, sto, v), PTR, c.mod)
    st.foralls.append(Forall(0, n, v, z3.And(bl(q.nul) == nul, z3.Implies(z3.Not(nul), eng.ident_of(st, Ptr(q.obj)) == made)), [], sto))
    set_val(eng, st, dst, vec(sto, n, 'vec'))
    return ret(c, dst)


@lib('std::find')
def _find(eng, c):
    """std::find over a sequence object (arrays of constants are executed from IR)"""
    a, b = c.args[0], c.args[1]
    if not (isinstance(a, Ptr) and a.obj is not None and c.st.obj(a.obj).kind in ('store', 'chars')):
        return NotImplemented
    st = c.st
    sid, lo, hi = seq_bounds(eng, c, a, b)
    o = st.obj(sid)
    if o.kind == 'chars':
        from .llparse import INT
        ch = eng.load(st, c.args[2], INT(8), c.mod)
        eqf = lambda s, i: simp(bl(bv(eng.char_at(s, o.data, i), 8) == bv(ch, 8))) if True else None
    else:
        e = o.data['elemty']
        if clean(e) == 'std::string':
            ps = params(c.dem)
            p3 = clean(re.sub(r'(&&|&)$', '', ps[2]).strip())
            if p3.startswith('std::string'):
                t = get_str(eng, st, c.args[2])
            else:
                t = eng.cstr_value(st, c.args[2])
            eqf = lambda s, i: eng.str_eq(get_str(eng, s, idx_ptr(eng, s, sid, i)), t)
        else:
            raise Unsupported('std::find over ' + e)
    outs = []
    if conc(lo) and conc(hi):
        neg = []
        for i in range(lo, hi):
            e = eqf(st, i)
            if e is False:
                continue
            cond = And(e, *neg)
            if cond is True or eng.feasible(st, cond):
                s2 = st.copy()
                s2.assume(cond)
                outs.append((s2, 'ret', eng.elem_ptr(sid, i, o.stride)))
            if e is True:
                return outs
            neg.append(Not(e))
        c2 = And(*neg)
        if c2 is True or eng.feasible(st, c2):
            st.assume(c2)
            outs.append((st, 'ret', eng.elem_ptr(sid, hi, o.stride)))
        return outs
    lo_, hi_ = bv(lo, 64), bv(hi, 64)
    v = z3.FreshConst(z3.BitVecSort(64), 'qi')
    gs = st.copy()
    gs.assume(z3.And(z3.ULE(lo_, v), z3.ULT(v, hi_)))
    n0 = len(gs.pc)
    e = bl(eqf(gs, v))
    s1 = st.copy()
    s1.foralls.append(Forall(lo_, hi_, v, z3.Not(e), [], sid))
    outs.append((s1, 'ret', b))
    k = z3.FreshConst(z3.BitVecSort(64), 'qk')
    st.assume(z3.And(z3.ULE(lo_, k), z3.ULT(k, hi_)))
    st.assume(eqf(st, k))
    inst(st, sid, k)
    st.foralls.append(Forall(lo_, k, v, z3.Not(e), [], sid))
    if eng.feasible(st):
        outs.append((st, 'ret', eng.elem_ptr(sid, k, o.stride)))
    return outs


# ================================================================= unique_ptr
@lib('std::unique_ptr::get', 'std::unique_ptr::operator->', 'std::unique_ptr::operator*')
def _up_get(eng, c):
    from .llparse import PTR
    p = eng.load(c.st, c.args[0], PTR, c.mod)
    if isinstance(p, Ptr) and p.obj is not None and not c.base.endswith('get') is False:
        pass
    return ret(c, p)


@lib('std::unique_ptr::operator bool')
def _up_bool(eng, c):
    from .llparse import PTR
    p = eng.load(c.st, c.args[0], PTR, c.mod)
    if p.obj is None:
        return ret(c, False)
    return ret(c, Not(p.nul))


@lib('std::unique_ptr::~unique_ptr')
def _up_dtor(eng, c):
    return ret(c)


@lib('std::unique_ptr::unique_ptr')
def _up_ctor(eng, c):
    from .llparse import PTR
    ps = params(c.dem)
    if not ps or ps[0] == 'decltype(nullptr)' or ps[0] == 'std::nullptr_t':
        eng.store(c.st, c.args[0], NULL, PTR, c.mod)
    elif ps[0].startswith('std::unique_ptr<'):
        v = eng.load(c.st, c.args[1], PTR, c.mod)
        eng.store(c.st, c.args[0], v, PTR, c.mod)
        eng.store(c.st, c.args[1], NULL, PTR, c.mod)
    else:
        eng.store(c.st, c.args[0], c.args[1], PTR, c.mod)
    return ret(c)


@lib('std::unique_ptr::operator=')
def _up_assign(eng, c):
    from .llparse import PTR
    ps = params(c.dem)
    if ps and ps[0].startswith('std::unique_ptr<'):
        v = eng.load(c.st, c.args[1], PTR, c.mod)
        eng.store(c.st, c.args[1], NULL, PTR, c.mod)
        eng.store(c.st, c.args[0], v, PTR, c.mod)
    else:
        eng.store(c.st, c.args[0], NULL, PTR, c.mod)
    return ret(c, c.args[0])


@lib('std::unique_ptr::reset')
def _up_reset(eng, c):
    from .llparse import PTR
    eng.store(c.st, c.args[0], c.args[1] if len(c.args) > 1 else NULL, PTR, c.mod)
    return ret(c)


@lib('std::unique_ptr::release')
def _up_release(eng, c):
    from .llparse import PTR
    v = eng.load(c.st, c.args[0], PTR, c.mod)
    eng.store(c.st, c.args[0], NULL, PTR, c.mod)
    return ret(c, v)


@lib('std::operator==', 'std::operator!=') if False else (lambda f: f)
def _unused(eng, c):
    return NotImplemented


# ================================================================= character classification / libc
@lib('isalpha', 'isalnum', 'isdigit', 'isxdigit', 'isupper', 'islower', 'tolower', 'toupper', 'std::isalpha', 'std::isalnum', 'std::isdigit', 'isspace', 'std::isspace', 'std::isxdigit')
def _ctype(eng, c):
    k = c.base.split('::')[-1]
    x = bv(c.args[0], 32)

    def rng(a, b):
        return z3.And(x >= ord(a), x <= ord(b))
    al, up, lo, dg = z3.Or(rng('a', 'z'), rng('A', 'Z')), rng('A', 'Z'), rng('a', 'z'), rng('0', '9')
    if k in ('tolower', 'toupper'):
        r = z3.If(up, x + 32, x) if k == 'tolower' else z3.If(lo, x - 32, x)
        return ret(c, simp(r))
    b = {'isalpha': al, 'isalnum': z3.Or(al, dg), 'isdigit': dg, 'isxdigit': z3.Or(dg, rng('a', 'f'), rng('A', 'F')), 'isupper': up, 'islower': lo,
         'isspace': z3.Or(x == 32, z3.And(x >= 9, x <= 13))}[k]
    f = z3.Function('ctype_nz_' + k, z3.BitVecSort(32), z3.BitVecSort(32))(x)
    b = simp(b)
    if isinstance(b, bool):
        return ret(c, 1 if b else 0)
    return ret(c, z3.If(b, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@lib('memcmp')
def _memcmp(eng, c):
    """zero exactly when the n characters agree (the order of different ones is left open)"""
    a, b, n = c.args
    st = c.st
    if isinstance(n, PInt):
        n = simp(bv(n.v, 64) * n.k)
    oa, ob = st.obj(a.obj), st.obj(b.obj)
    if oa.kind != 'chars' or ob.kind != 'chars':
        raise Unsupported('memcmp')
    i, j = bv(eng.pindex(st, a), 64), bv(eng.pindex(st, b), 64)
    n = bv(n, 64)
    for o, x in ((oa, i), (ob, j)):
        L = bv(eng.str_len(st, o.data), 64)
        eng.oblige(st, 'comparison within the text', z3.And(z3.ULE(x, L), z3.ULE(n, L - x)), 'safety', eng.loc())
    A, B = oa.data.z(), ob.data.z()
    eq = z3.FreshConst(z3.BoolSort(), 'memeq')
    k = z3.FreshConst(z3.BitVecSort(64), 'dif')
    st.assume(z3.Or(eq, z3.And(z3.ULT(k, n), schr(A, i + k) != schr(B, j + k))))
    inst(st, a.obj, simp(i + k))
    inst(st, b.obj, simp(j + k))
    v = z3.FreshConst(z3.BitVecSort(64), 'mi')
    st.foralls.append(Forall(i, simp(i + n), v, z3.Implies(eq, schr(A, v) == schr(B, v - i + j)), [], a.obj))
    v = z3.FreshConst(z3.BitVecSort(64), 'mi')
    st.foralls.append(Forall(j, simp(j + n), v, z3.Implies(eq, schr(A, v - j + i) == schr(B, v)), [], b.obj))
    r = z3.FreshConst(z3.BitVecSort(32), 'cmp')
    st.assume((r == 0) == eq)
    return ret(c, r)


@lib('std::abs', 'labs', 'abs', 'llabs')
def _abs(eng, c):
    a = c.args[0]
    if z3.is_expr(a) and z3.is_fp(a):
        return ret(c, z3.fpAbs(a))
    w = c.ins.ty.n if c.ins.ty.k == 'int' else 64
    if isinstance(a, int):
        return ret(c, abs(sgn(a, w)) & mask(w))
    if a.sort().kind() != z3.Z3_BV_SORT:
        return NotImplemented
    eng.oblige(c.st, 'no signed overflow (abs)', a != z3.BitVecVal(1 << (w - 1), w), 'safety', eng.loc())
    return ret(c, simp(z3.If(a < 0, -a, a)))


@lib('std::min', 'std::max')
def _minmax(eng, c):
    """executed from IR when the arguments are references to scalars"""
    return NotImplemented


# ================================================================= string streams (opaque accumulated text)
@lib('std::basic_stringstream::basic_stringstream')
def _ss(eng, c):
    eng.put(c.st, c.args[0], 128, OV(SV(''), 128))
    return ret(c)


def stream_base(eng, st, p):
    """the OV cell of the stream object holding address p (ostream sub-object at +16)"""
    o = st.obj(p.obj)
    for (ik, m), (sz, v) in o.cells.items():
        if isinstance(v, OV) and m <= p.off < m + sz:
            return Ptr(p.obj, m), v
    return None, None


@pattern(r'^std::(ostream|basic_ostream)::operator<<$|^std::operator<<$')
def _stream_put(eng, c):
    p = c.args[0]
    base, ov = stream_base(eng, c.st, p) if isinstance(p, Ptr) and p.obj is not None else (None, None)
    ps = params(c.dem)
    if base is None:
        if isinstance(p, Ptr) and p.obj is not None and c.st.obj(p.obj).name in ('@_ZSt4cerr', '@_ZSt4cout'):
            return ret(c, p)
        raise Unsupported('output to unknown stream')
    if ov.v is None:
        return ret(c, p)
    arg = ps[-1] if c.base.startswith('std::ostream') or len(ps) == 1 else ps[1]
    fl = c.st.g.get(('ssfl', p.obj), 'dec')
    a = c.args[1] if len(c.args) > 1 else None
    if arg in ('unsigned long', 'unsigned int', 'long', 'int', 'unsigned long long', 'unsigned short', 'short', 'unsigned char') and c.base != 'std::operator<<':
        w = 8 * PRIM[arg]
        signed = not arg.startswith('unsigned')
        if isinstance(a, int):
            t = SV((('%X' if c.st.g.get(('ssup', p.obj)) else '%x') % (a & mask(w))) if fl == 'hex' else str(sgn(a, w) if signed else a))
        elif fl == 'hex':
            t = SV(z3.Function('uhexU' if c.st.g.get(('ssup', p.obj)) else 'uhex', z3.BitVecSort(64), StrS)(z3.ZeroExt(64 - w, a) if w < 64 else a))
        else:
            t = SV(dec_text((z3.SignExt if signed else z3.ZeroExt)(64 - w, a) if w < 64 else a, signed))
    elif arg.startswith('std::ios_base& (*)') or '(*)' in arg:
        nm = a.name if isinstance(a, FnPtr) else ''
        if 'nouppercase' in nm:
            c.st.g[('ssup', p.obj)] = False
        elif 'uppercase' in nm:
            c.st.g[('ssup', p.obj)] = True
        elif 'hex' in nm:
            c.st.g[('ssfl', p.obj)] = 'hex'
        elif 'dec' in nm:
            c.st.g[('ssfl', p.obj)] = 'dec'
        return ret(c, p)
    elif arg == 'std::_Setw':
        c.st.g[('ssw', p.obj)] = a
        return ret(c, p)
    elif arg.startswith('std::_Setfill'):
        c.st.g[('ssfill', p.obj)] = a
        return ret(c, p)
    elif arg.startswith(('std::string', 'char const*', 'char')):
        t = other_str(eng, c, 1, arg)
    else:
        t = None
    wd = c.st.g.pop(('ssw', p.obj), 0)
    if t is not None and not (isinstance(wd, int) and wd == 0):
        # padding on the left
        if isinstance(t.v, str) and isinstance(wd, int):
            fch = c.st.g.get(('ssfill', p.obj), 32)
            t = SV(t.v.rjust(wd, chr(fch & 255))) if isinstance(fch, int) else None
        else:
            t = SV(z3.Function('strpad', StrS, z3.BitVecSort(32), z3.BitVecSort(8), StrS)(t.z(), bv(wd, 32), bv(c.st.g.get(('ssfill', p.obj), 32), 8)))
    if t is None:
        eng.put(c.st, base, 128, OV(None, 128))
    else:
        eng.put(c.st, base, 128, OV(do_concat(eng, c.st, ov.v, t), 128))
    return ret(c, p)


@lib('std::basic_stringstream::str')
def _ss_str(eng, c):
    ps = params(c.dem)
    if ps:
        raise Unsupported('stringstream::str(s)')
    base, ov = stream_base(eng, c.st, c.args[1])
    if ov is None:
        raise Unsupported('unknown stream')
    set_str(eng, c.st, c.args[0], ov.v if ov.v is not None else SV(z3.FreshConst(StrS, 'sstext')))
    return ret(c)


@lib('std::fill_n')
def _fill_n(eng, c):
    """characters put at the end of a text"""
    t = ntext(c.dem)
    if len(c.args) != 3 or 'std::back_insert_iterator<std::string' not in t:
        return NotImplemented
    from .llparse import INT
    a = get_str(eng, c.st, c.args[0])
    n, ch = c.args[1], c.args[2]
    ch = eng.load(c.st, ch, INT(8), c.mod) if isinstance(ch, Ptr) else ch
    b = SV(z3.Function('strfill', z3.BitVecSort(64), z3.BitVecSort(8), StrS)(bv(n, 64), bv(ch, 8)))
    c.st.assume(slen(b.v) == bv(n, 64))
    set_str(eng, c.st, c.args[0], do_concat(eng, c.st, a, b))
    return ret(c, c.args[0])
