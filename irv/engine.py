"""Modular (contract based) symbolic executor / VC generator over LLVM IR.

One function at a time: the body of the function under contract is executed on
fully symbolic inputs constrained only by its precondition; every call to a
function that has a contract is replaced by "check pre, havoc frame, assume
post"; loops over symbolically sized data are cut at their header with an
invariant (user supplied or the default "havoc + index bounds" one); every path
that reaches a return has to prove the postcondition.  Calls to functions of the
repository that carry no contract are executed in line.
"""
import re
import time
import sys
import z3
from .llparse import Module, Fn, T, C, PTR, INT, LLError

sys.setrecursionlimit(20000)

ObjS = z3.DeclareSort('Obj')
StrS = z3.DeclareSort('Str')
slen = z3.Function('slen', StrS, z3.BitVecSort(64))
schr = z3.Function('schr', StrS, z3.BitVecSort(64), z3.BitVecSort(8))
litid = z3.Function('litid', StrS, z3.BitVecSort(32))
LITS = {}
AXIOMS = []          # global axioms about string literals


LITTEXT = {}
strset = z3.Function('strset', StrS, z3.BitVecSort(64), z3.BitVecSort(8), StrS)


def lit_text(t):
    return LITTEXT.get(t.get_id())


def strlit(s):
    t = LITS.get(s)
    if t is None:
        t = z3.Const('lit!%d!%s' % (len(LITS), re.sub(r'[^A-Za-z0-9_]', '_', s)[:20]), StrS)
        LITS[s] = t
        LITTEXT[t.get_id()] = s
        ax = [litid(t) == len(LITS), slen(t) == len(s)]
        if len(s) <= 48:
            for i, c in enumerate(s + '\0'):
                ax.append(schr(t, z3.BitVecVal(i, 64)) == ord(c) % 256)
        AXIOMS.append(z3.And(ax))
    return t


class Unsupported(Exception):
    """Tool limit: never reported as a violation."""


class Halt(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, alts):
        self.alts = alts        # list of (cond, fn(state))


# ---------------------------------------------------------------- values
_intern = {}


def tkey(t):
    i = t.get_id()
    _intern[i] = t
    return ('t', i)


def kterm(k):
    return _intern[k[1]]


_cnt = [0]


def uid():
    _cnt[0] += 1
    return _cnt[0]


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(1 if v else 0, w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def bl(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if z3.is_bv(v):
        return simp(v != z3.BitVecVal(0, v.size()))
    return v


def simp(e):
    if isinstance(e, (int, bool)):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def light(e):
    """fold constants only when the expression is a literal"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def conc(v):
    return isinstance(v, (int, bool))


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def And(*xs):
    o = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        o.append(x)
    if not o:
        return True
    return o[0] if len(o) == 1 else z3.And(o)


def Or(*xs):
    o = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        o.append(x)
    if not o:
        return False
    return o[0] if len(o) == 1 else z3.Or(o)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b, w=None):
    """a,b ints/BV of width w"""
    if isinstance(c, bool):
        return a if c else b
    return simp(z3.If(c, bv(a, w), bv(b, w)))


class Ptr:
    __slots__ = ('obj', 'off', 'term', 'stride', 'nul')

    def __init__(self, obj, off=0, term=None, stride=0, nul=False):
        self.obj = obj
        self.off = off
        self.term = term
        self.stride = stride
        self.nul = nul          # Bool: pointer is null

    def __repr__(self):
        return 'Ptr(%r+%r%s%s)' % (self.obj, self.off, '' if self.term is None else '+%s*%d' % (self.term, self.stride),
                                   '' if self.nul is False else ' null?')

    def add(self, n):
        return Ptr(self.obj, self.off + n, self.term, self.stride, self.nul)

    def key(self):
        return (self.obj, self.off, None if self.term is None else tkey(self.term), self.stride)


NULL = Ptr(None)


class Agg:
    """first class aggregate"""
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el

    def __repr__(self):
        return 'Agg%r' % (self.el,)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class FnPtr:
    __slots__ = ('mod', 'name', 'virt')

    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        self.virt = None

    def __repr__(self):
        return 'Fn(%s)' % self.name


class SV:
    """std::string value (python str of latin-1 chars, or z3 String)"""
    __slots__ = ('v',)
    size = 32

    def __init__(self, v):
        self.v = v

    def z(self):
        return strlit(self.v) if isinstance(self.v, str) else self.v

    def __repr__(self):
        return 'SV(%r)' % (self.v,)


class VV:
    """std::vector value: store object id + length (BV64/int)"""
    __slots__ = ('store', 'n')
    size = 24

    def __init__(self, store, n):
        self.store = store
        self.n = n

    def __repr__(self):
        return 'VV(%r,%r)' % (self.store, self.n)


class MV:
    """std::map/multimap/set value.
    concrete: ent = list of (key value, node obj id) ; symbolic: ident term + kind of key"""
    __slots__ = ('ent', 'ident', 'keyk', 'multi', 'end', 'upd', 'info')
    size = 48

    def __init__(self, ent=None, ident=None, multi=False, upd=(), info=None):
        self.ent = ent
        self.ident = ident
        self.multi = multi
        self.end = None
        self.upd = upd
        self.info = info

    def __repr__(self):
        return 'MV(%r,%r)' % (self.ent, self.ident)


class OV:
    """opaque ghost value of a library object (streams, functions ...)"""
    __slots__ = ('v', 'size')

    def __init__(self, v=None, size=8):
        self.v = v
        self.size = size

    def __repr__(self):
        return 'OV(%r)' % (self.v,)


class Obj:
    __slots__ = ('kind', 'name', 'cells', 'ident', 'cls', 'size', 'stride', 'data', 'owner', 'regions', 'written', 'ext', 'arr', 'rew')

    def __init__(self, kind, name, size=None, ident=None, cls=None, stride=None, data=None, ext=False):
        self.kind = kind      # 'local','heap','lazy','glob','store','chars','cstr'
        self.name = name
        self.cells = {}
        self.ident = ident
        self.cls = cls
        self.size = size
        self.stride = stride
        self.data = data
        self.owner = None
        self.regions = ()
        self.written = frozenset()
        self.ext = ext
        self.arr = None
        self.rew = False      # a cell was written after its initial value was read / 'frozen': its content is known by identity

    def clone(self):
        o = Obj(self.kind, self.name, self.size, self.ident, self.cls, self.stride, self.data, self.ext)
        o.cells = dict(self.cells)
        o.regions = self.regions
        o.written = self.written
        o.arr = self.arr
        o.rew = self.rew
        return o


class Forall:
    """for all lo <= i < hi: body(i)   (body given as z3 Bool over var plus bound symbols)"""
    __slots__ = ('lo', 'hi', 'var', 'body', 'bound', 'store')

    def __init__(self, lo, hi, var, body, bound, store):
        self.lo, self.hi, self.var, self.body, self.bound, self.store = lo, hi, var, body, bound, store

    def inst(self, t):
        sub = [(self.var, t)]
        for b in self.bound:
            sub.append((b, z3.FreshConst(b.sort(), 'sk')))
        body = z3.substitute(self.body, *sub)
        return z3.Implies(z3.And(z3.ULE(bv(self.lo, 64), t), z3.ULT(t, bv(self.hi, 64))), body)


REG = {}


class State:
    __slots__ = ('mem', 'pc', 'g', 'foralls', 'depth', 'ghosts', 'inst', 'frame', 'insted', 'tok')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.g = {}
        self.foralls = []
        self.inst = {}      # store ident key / None -> list of index terms
        self.insted = set()
        self.tok = object()     # objects are written in place only while their owner token is this one

    def copy(self):
        s = State()
        self.tok = object()     # from here on both states share the objects: neither may write them in place
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.g = dict(self.g)
        s.foralls = list(self.foralls)
        s.inst = {k: list(v) for k, v in self.inst.items()}
        s.insted = set(self.insted)
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(c)

    def obj(self, i):
        o = self.mem.get(i)
        if o is None:
            o = self.adopt(i)
        return o

    def adopt(self, i):
        # a lazily created external object that this state has not seen yet: its initial contents are functions of
        # its identity, so a pristine copy is exactly what this state would have created
        o = REG[i].clone()
        self.mem[i] = o
        return o

    def wobj(self, i):
        o = self.obj(i)
        if o.owner is not self.tok:
            o = o.clone()
            o.owner = self.tok
            self.mem[i] = o
        return o

    def new(self, o):
        i = uid()
        if o.kind == 'lazy' or o.ext:
            REG[i] = o.clone()
        o.owner = self.tok
        self.mem[i] = o
        return i


class Exc:
    def __init__(self, ty, obj=None):
        self.ty = ty      # mangled typeinfo name or class name
        self.obj = obj


# -------------------------------------------------------------- names
def strip_templates(s):
    out = []
    d = 0
    i = 0
    n = len(s)
    while i < n:
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            for op in ('operator<<=', 'operator>>=', 'operator<=>', 'operator->*', 'operator<<', 'operator>>', 'operator<=',
                       'operator>=', 'operator->', 'operator<', 'operator>', 'operator()'):
                if s.startswith(op, i):
                    if d == 0:
                        out.append(op)
                    i += len(op)
                    break
            else:
                if d == 0:
                    out.append('operator')
                i += 8
            continue
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def base_name(dem):
    """demangled -> qualified name without template args, parameters and return type"""
    m = re.match(r'_ZSt(\d+)', dem)        # names the demangler does not know (of a lambda in a generic lambda)
    if m:
        return 'std::' + dem[m.end():m.end() + int(m.group(1))]
    if dem.startswith('_ZN9__gnu_cxx'):
        return '__gnu_cxx::__ops::undemangled'
    s = dem.replace('(anonymous namespace)::', '').replace('[abi:cxx11]', '').replace('std::__cxx11::', 'std::')
    s = re.sub(r"\{lambda\([^{}]*?\)#(\d+)\}", r'{lambda#\1}', s)
    s = strip_templates(s)
    # parameter list = the last top level (...) group
    s = re.sub(r'operator\(\)', 'operator@@', s)
    # cut at first '(' (params) unless the whole is a local entity f(...)::x
    parts = []
    d = 0
    cur = ''
    for c in s:
        if c == '(':
            d += 1
        elif c == ')':
            d -= 1
        elif d == 0:
            cur += c
    s = cur
    s = re.sub(r'\b(const|noexcept)\b', '', s)
    s = s.replace('operator@@', 'operator()').strip()
    # cut return type
    m = re.search(r'operator\s*(new|delete)(\[\])?$', s)
    if m:
        return s[s.rfind(' ', 0, m.start()) + 1:].strip() if ' ' in s[:m.start()] else s
    m = re.search(r'::operator\s+\S.*$|^operator\s+\S.*$', s)
    if m:
        h = s[:m.start()]
        return (h.split(' ')[-1] + m.group()).replace(' &', '&').strip()
    j = s.find('operator')
    if j >= 0:
        h = s[:j]
        return h.split(' ')[-1] + s[j:].strip()
    toks = [x for x in s.split(' ') if x and x not in ('&', '*', '&&')]
    r = toks[-1] if toks else s
    return r.lstrip('&*')


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, mods, demangle, layouts):
        self.mods = mods
        self.dem = demangle      # mangled -> demangled
        self.layouts = layouts   # class -> Layout
        self.index = {}
        self.gindex = {}
        for m in mods:
            for n, f in m.fns.items():
                if ' internal ' in f.header[:60] or f.header.startswith('define internal'):
                    continue
                self.index.setdefault(n, f)
        for m in mods:
            for n, raw in m.globs.items():
                if raw.startswith(('external', 'private', 'internal')):
                    continue
                self.gindex.setdefault(n, m)
        self._base = {}
        self.bybase = {}
        for m in mods:
            for n, f in m.fns.items():
                self.bybase.setdefault(self.base(n), []).append(f)

    def base(self, n):
        b = self._base.get(n)
        if b is None:
            b = base_name(self.dem.get(n, n))
            self._base[n] = b
        return b

    def find(self, mod, name):
        f = mod.fns.get(name)
        if f is not None:
            return f
        f = self.index.get(name)
        if f is None:
            a = self.alias_of(mod, name)
            if a is not None:
                f = mod.fns.get(a) or self.index.get(a)
        return f

    def alias_of(self, mod, name):
        m = mod
        raw = m.globs.get(name)
        if raw is None or raw.startswith('external'):
            m = self.gindex.get(name)
            if m is None:
                return None
            raw = m.globs[name]
        k = raw.find(' alias ')
        if k < 0:
            return None
        j = raw.rfind('@')
        return raw[j + 1:].strip().strip('"').split(',')[0]

    def vtable_entry(self, cls, slot):
        """(module, mangled function, method name) of a vtable slot"""
        if cls is None:
            return None
        key = '_ZTVN' + ''.join('%d%s' % (len(x), x) for x in cls.split('::')) + 'E'
        m = self.gindex.get(key)
        if m is None:
            return None
        ty, init, const, ext, alias = m.glob(key)
        if 2 + slot >= len(init.v[0].v):
            return None
        ent = init.v[0].v[2 + slot]
        if ent.k != 'glob':
            return None
        n = ent.v[1:]
        if n == '__cxa_pure_virtual':
            for k2, m2 in self.gindex.items():
                if k2.startswith('_ZTVN') and k2 != key:
                    ty, init, const, ext, alias = m2.glob(k2)
                    if init is None:
                        continue
                    try:
                        e2 = init.v[0].v
                    except (AttributeError, TypeError):
                        continue
                    if len(e2) > 2 + slot and self.derives(m2, k2, cls) and e2[2 + slot].k == 'glob' and e2[2 + slot].v[1:] != '__cxa_pure_virtual':
                        n2 = e2[2 + slot].v[1:]
                        return m2, n2, self.base(n2).split('::')[-1]
            return None
        return m, n, self.base(n).split('::')[-1]

    def derives(self, m, vt, cls):
        """does the class of vtable vt derive (singly) from cls: through the typeinfo chain"""
        want = '_ZTIN' + ''.join('%d%s' % (len(x), x) for x in cls.split('::')) + 'E'
        ti = '_ZTI' + vt[4:]
        for _ in range(6):
            if ti == want:
                return True
            mm = self.gindex.get(ti)
            if mm is None:
                return False
            ty, init, const, ext, alias = mm.glob(ti)
            if init is None or len(init.v) < 3 or init.v[2].k != 'glob':
                return False
            ti = init.v[2].v[1:]
        return False

    def lookup(self, base, sig=None):
        """functions by qualified base name; prefer unique"""
        fs = self.bybase.get(base, [])
        if sig is not None:
            fs = [f for f in fs if sig in self.dem.get(f.name, f.name)]
        # de-duplicate by mangled name
        seen = {}
        for f in fs:
            if f.header.startswith('define available'):
                continue
            seen.setdefault(f.name, f)
        return list(seen.values())


# ---------------------------------------------------------------- solver
class SolverPool:
    def __init__(self, timeout_ms=4000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.time = 0.0
        self.n = 0
        self.cache = {}
        self.nax = 0

    def check(self, pc, extra):
        key = (tuple(p.get_id() for p in pc), extra.get_id() if extra is not None else None)
        if key in self.cache:
            return self.cache[key][0]
        if self.nax != len(AXIOMS):
            if self.stack:
                self.s.pop(len(self.stack))
                del self.stack[:]
            for a in AXIOMS[self.nax:]:
                self.s.add(a)
            self.nax = len(AXIOMS)
        i = 0
        st = self.stack
        while i < len(st) and i < len(pc) and st[i].get_id() == pc[i].get_id():
            i += 1
        if len(st) > i:
            self.s.pop(len(st) - i)
            del st[i:]
        for p in pc[i:]:
            self.s.push()
            self.s.add(p)
            st.append(p)
        t = time.time()
        if extra is not None:
            self.s.push()
            self.s.add(extra)
            r = self.s.check()
            self.s.pop()
        else:
            r = self.s.check()
        self.time += time.time() - t
        self.n += 1
        self.cache[key] = (r, list(pc), extra)
        return r


class Obligation:
    def __init__(self, name, fn, status, t, backend, kind='post', model=None, smt=None, loc=None):
        self.name = name
        self.fn = fn
        self.status = status      # 'proved' 'failed' 'unknown'
        self.t = t
        self.backend = backend
        self.kind = kind
        self.model = model
        self.smt = smt
        self.loc = loc


BUILTINS = {}
# classes whose virtual functions are overridden further down: a virtual call on them is never resolved to their own version
OPEN_CLASSES = {'ParseFieldImpl', 'ParseLayerImpl', 'ParseOptCondImpl', 'GenElem', 'GenField', 'GenLayer', 'GenMessage', 'GenGenerator', 'GenSchema', 'GenNamespace',
                'GenFrame', 'GenInterface', 'ParseObject'}


def lib(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


class Engine:
    def __init__(self, prog, contracts, opts=None):
        self.prog = prog
        self.contracts = contracts      # base name -> Contract
        self.solver = SolverPool(int((opts or {}).get('feas_ms', 3000)))
        self.obl = []
        self.opts = opts or {}
        self.cur = None                 # contract under verification
        self.deadline = None
        self.used_contracts = set()
        self.used_lib = set()
        self.inlined = set()
        self.assumptions = set()
        self.steps = 0
        self.fnstack = []
        self.sym_decl = {}

    # ---- solver helpers
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this function exhausted')

    def feasible(self, st, c=None):
        if c is False:
            return False
        if c is True:
            c = None
        self.tick()
        r = self.solver.check(st.pc, c)
        return r != z3.unsat

    def must(self, st, c):
        if isinstance(c, bool):
            return c
        return self.solver.check(st.pc, z3.Not(c)) == z3.unsat

    def must_inst(self, st, c):
        """must, using the universal facts at the registered positions too"""
        if isinstance(c, bool):
            return c
        if self.must(st, c):
            return True
        s = z3.Solver()
        s.set('timeout', 4000 if self.opts.get('fallback') else 10000)
        for f in AXIOMS + list(st.pc) + self.instances(st):
            s.add(f)
        s.add(z3.Not(c))
        r = s.check()
        if r == z3.unknown and self.opts.get('fallback'):
            smt = s.to_smt2()
            for be in self.opts['fallback']:
                q = be(smt)
                if q in ('unsat', 'sat'):
                    return q == 'unsat'
        if r == z3.unknown:         # an invariant is lost for lack of time: what fails afterwards is undecided, not refuted
            self.imprecise = True
        return r == z3.unsat

    imprecise = False

    def oblige(self, st, name, cond, kind='post', loc=None, ctx=None):
        """record an obligation; afterwards assume it"""
        fn = self.cur.name if self.cur else '?'
        if cond is True:
            self.obl.append(Obligation(name, fn, 'proved', 0.0, 'const', kind, loc=loc))
            return True
        t = time.time()
        self.tick()
        c = bl(cond)
        status, backend, model, smt = self.prove(st, c)
        o = Obligation(name, fn, status, time.time() - t, backend, kind, model, smt, loc)
        self.obl.append(o)
        if status == 'failed' and self.opts.get('on_fail'):
            self.opts['on_fail'](self, st, o, ctx)
        if status != 'proved' or True:
            st.assume(c)
        return status == 'proved'

    def prove(self, st, c):
        """discharge  AXIOMS & path condition & instances of the summaries |= c
        first without the instances (most obligations do not need them), then with, then with the other back ends"""
        nc = z3.Not(c)
        total = int(self.opts.get('obl_ms', 20000))

        def solve(fs, ms):
            s = z3.Solver()
            s.set('timeout', ms)
            for p in AXIOMS:
                s.add(p)
            for p in st.pc:
                s.add(p)
            for f in fs:
                s.add(f)
            s.add(nc)
            return s, s.check()
        inst = self.instances(st)
        if inst:
            s, r = solve([], min(total, 2500))
            if r == z3.unsat:
                return 'proved', 'z3', None, None
        s, r = solve(inst, total)
        if r == z3.unsat:
            return 'proved', 'z3', None, None
        if r == z3.sat and self.imprecise:
            return 'unknown', 'z3', s.model(), None
        if r == z3.sat:
            return 'failed', 'z3', s.model(), None
        smt = s.to_smt2()
        for be in self.opts.get('fallback', []):
            r = be(smt)
            if r == 'unsat':
                return 'proved', be.__name__, None, smt
        return 'unknown', 'z3', None, smt

    def instances(self, st):
        out = []
        for fa in st.foralls:
            for k in (fa.store, None):
                for t in st.inst.get(k, ()):
                    out.append(fa.inst(t))
        return out

    # ---- symbols
    def fresh(self, name, w):
        if w == 1:
            return z3.FreshConst(z3.BoolSort(), name)
        return z3.FreshConst(z3.BitVecSort(w), name)

    def ident_of(self, st, p):
        """Obj-sorted identity term of an address"""
        p = self.norm(st, p)
        o = st.obj(p.obj)
        if o.ident is None:
            # identity of a concrete object: may be set on any state copy -> derive from id
            base = z3.Const('obj!%d' % p.obj, ObjS)
        else:
            base = o.ident
        if o.kind == 'store':
            o2, ik, m, it = self.locate(st, p)
            e = z3.Function('elem', ObjS, z3.BitVecSort(64), ObjS)(base, bv(it, 64))
            return e if m == 0 else z3.Function('sub%d' % m, ObjS, ObjS)(e)
        if p.term is not None:
            raise Unsupported('identity of symbolic offset')
        if p.off == 0:
            return base
        return z3.Function('sub%d' % p.off, ObjS, ObjS)(base)

    def norm(self, st, p):
        return p

    def touch(self, st, sid, i):
        """an element is accessed: universal facts about the sequence are used at it"""
        if any(fa.store == sid for fa in st.foralls) or self.cur is not None and self.cur.merge:
            l = st.inst.setdefault(sid, [])
            if len(l) < 16 and not any(x.eq(i) for x in l):
                l.append(i)

    def locate(self, st, p):
        """-> (obj, ikey, member offset, index term or int)"""
        if p.obj is None:
            raise Unsupported('null dereference')
        o = st.obj(p.obj)
        if o.kind == 'store':
            S = o.stride
            if p.term is None:
                i = p.off // S
                if st.foralls:
                    self.touch(st, p.obj, z3.BitVecVal(i & mask(64), 64))
                return o, i, p.off % S, i
            if p.stride != S:
                # member array inside element?
                raise Unsupported('stride mismatch %d vs %d' % (p.stride, S))
            i = p.term
            q = p.off // S
            if q:
                i = simp(i + z3.BitVecVal(q & mask(64), 64))
            if isinstance(i, int):
                if st.foralls:
                    self.touch(st, p.obj, z3.BitVecVal(i & mask(64), 64))
                return o, i, p.off % S, i
            if st.foralls or self.cur is not None and self.cur.merge:
                self.touch(st, p.obj, i)
            c = st.g.get(('conc', tkey(i)))
            if c is not None:
                return o, c, p.off % S, c
            return o, tkey(i), p.off % S, i
        if p.term is not None:
            c = st.g.get(('conc', tkey(p.term)))
            if c is not None:
                return o, None, p.off + sgn(c, 64) * p.stride, None
            # symbolic index into a plain object: fork over the feasible concrete indices
            n = (o.size // p.stride) if o.size else None
            if n is None or n > 300:
                raise Unsupported('symbolic offset into object %s' % o.name)
            alts = []
            oob = []
            for k in range(0, n):
                cnd = p.term == z3.BitVecVal(k, 64)
                oob.append(cnd)
                alts.append((cnd, ('conc', tkey(p.term)), k))
            self.oblige(st, 'index in bounds of %s' % o.name, z3.Or(oob), 'safety')
            raise NeedFork(alts)
        return o, None, p.off, None

    # ---- lazy initial content
    def lazy_name(self, o, m):
        if o.cls and o.cls in self.prog.layouts:
            L = self.prog.layouts[o.cls]
            f = L.at(m)
            if f:
                return 'o%d' % m, f[1]
        return 'o%d' % m, None

    def pretty_member(self, o, m):
        if o.cls and o.cls in self.prog.layouts:
            f = self.prog.layouts[o.cls].at(m)
            if f:
                return f[0]
        return '+%d' % m

    def fld_uf(self, o, ident, m, sort, tag):
        nm, _ = self.lazy_name(o, m)
        return z3.Function('%s:%s' % (nm, tag), ObjS, sort)(ident)

    def cell_ident(self, st, o, oid, ik):
        base = o.ident if o.ident is not None else z3.Const('obj!%d' % oid, ObjS)
        if ik is None:
            return base
        it = bv(ik, 64) if isinstance(ik, int) else kterm(ik)
        return z3.Function('elem', ObjS, z3.BitVecSort(64), ObjS)(base, it)

    def lazy_load(self, st, oid, ik, m, ty, mod):
        """initial value of an external cell"""
        o = st.obj(oid)
        ident = self.cell_ident(st, o, oid, ik)
        ty = mod.resolve(ty) if mod else ty
        if ty.k == 'int':
            w = max(8, ty.n) if ty.n != 1 else 8
            nm, ft = self.lazy_name(o, m)
            v = self.fld_uf(o, ident, m, z3.BitVecSort(w), 'i%d' % w)
            if ft and ft in ('_Bool', 'bool') and w == 8:
                st.assume(z3.ULE(v, 1))
            rng = self.opts.get('enum_ranges', {}).get(ft.split('::')[-1] if ft else None)
            if rng is not None and w == 32:
                st.assume(z3.ULT(v, rng))
            return v
        if ty.k == 'double':
            return z3.Function('%s:f64' % self.lazy_name(o, m)[0], ObjS, z3.Float64())(ident)
        if ty.k == 'ptr':
            nm, ft = self.lazy_name(o, m)
            if ft == 'vptr':
                return Ptr(st.new(Obj('vtable', 'vtable', data=(o.cls, ident, o.name))))
            child = z3.Function('%s:ptr' % nm, ObjS, ObjS)(ident)
            isref = bool(ft and ft.endswith('&'))
            nul = False if isref or o.kind == 'nonnull' else z3.Function('%s:isnull' % nm, ObjS, z3.BoolSort())(ident)
            cls = None
            if ft and ft[-1] in '*&':
                cls = self.class_of_text(ft[:-1].strip())
            elif ft and ft.startswith('std::unique_ptr<'):
                cls = self.class_of_text(ft[len('std::unique_ptr<'):-1].split(',')[0].strip())
            elif ft is None and o.data and isinstance(o.data, dict) and 'elemcls' in o.data and m == 0:
                cls = o.data['elemcls']
                nul = False
            oid2 = self.lazy_obj(st, child, cls, '%s->%s' % (o.name, nm))
            return Ptr(oid2, 0, nul=nul)
        raise Unsupported('lazy load of %r' % ty)

    def publish(self, st, p, mod):
        """identity of an object whose written members become functions of it (the object is not written any more)"""
        o = st.wobj(p.obj)
        if o.rew == 'frozen':
            return o.ident
        if o.rew or o.regions or p.off or p.term is not None:
            raise Unsupported('object put into a container was overwritten')
        if o.ident is None:
            o.ident = z3.FreshConst(ObjS, 'made')
        elif o.kind != 'lazy' or o.ext:
            return o.ident          # an object which existed before
        from .llparse import INT, PTR
        o.rew = 'frozen'
        for (ik, m), (sz, v) in list(o.cells.items()):
            if ik is not None or (o.kind == 'lazy' and (ik, m) not in o.written):
                continue
            nm = self.lazy_name(o, m)[0]
            if isinstance(v, SV):
                st.assume(z3.Function('%s:str' % nm, ObjS, StrS)(o.ident) == v.z())
            elif isinstance(v, Ptr) and v.obj is not None and not v.off and v.term is None and st.obj(v.obj).kind in ('lazy', 'nonnull'):
                x = self.lazy_load(st, p.obj, None, m, PTR, mod)
                if isinstance(x, Ptr) and x.term is None and st.obj(x.obj).ident is not None:
                    st.assume(st.obj(x.obj).ident == self.ident_of(st, v))
                    st.assume(bl(x.nul) == bl(v.nul))
            elif (isinstance(v, int) or z3.is_bv(v)) and not isinstance(v, bool) and sz in (1, 2, 4, 8):
                st.assume(self.lazy_load(st, p.obj, None, m, INT(8 * sz), mod) == bv(v, 8 * sz))
        return o.ident

    def class_of_text(self, t):
        t = t.replace('const ', '').replace('class ', '').replace('struct ', '').strip().lstrip(':')
        L = self.prog.layouts
        if t in L:
            return t
        for pre in ('commsdsl::parse::', 'commsdsl::gen::', 'commsdsl::'):
            if pre + t in L:
                return pre + t
        return self.opts.get('classmap', {}).get(t)

    def stable(self, st, key, keep, make):
        """an object created on demand; where states are joined it is the same one in every state"""
        if self.cur is None or not self.cur.merge:
            return make()
        ids = self.__dict__.setdefault('lazy_ids', {})
        i = ids.get(key)
        if i is None:
            i = ids[key] = make()
            REG.setdefault(i, st.mem[i].clone())
            self.lazy_keep = getattr(self, 'lazy_keep', []) + keep
        else:
            st.obj(i)
        return i

    def lazy_obj(self, st, ident, cls, name):
        k = ('lazyobj', tkey(ident))
        i = st.g.get(k)
        if i is None:
            i = self.stable(st, k, [ident], lambda: st.new(Obj('lazy', name, ident=ident, cls=cls, ext=True)))
            st.g[k] = i
        return i

    # ---- memory
    def load(self, st, p, ty, mod):
        if isinstance(p, FnPtr):
            raise Unsupported('load from function')
        if not isinstance(p, Ptr):
            raise Unsupported('load via %r' % (p,))
        self.check_null(st, p, 'load')
        ty = mod.resolve(ty)
        if ty.k in ('struct', 'array'):
            if ty.k == 'struct':
                offs, _ = mod.struct_layout(ty)
                return Agg([self.load(st, p.add(offs[i]), e, mod) for i, e in enumerate(ty.a)])
            es = mod.size(ty.a)
            return Agg([self.load(st, p.add(i * es), ty.a, mod) for i in range(ty.n)])
        o0 = st.obj(p.obj)
        if o0.kind == 'chars':
            return self.char_load(st, o0, p)
        if o0.kind == 'vtable':
            return self.vtable_load(st, o0, p)
        o, ik, m, it = self.locate(st, p)
        sz = mod.size(ty)
        return self.load_cell(st, p.obj, ik, m, sz, ty, mod)

    def load_cell(self, st, oid, ik, m, sz, ty, mod):
        o = st.obj(oid)
        c = o.cells.get((ik, m))
        if c is not None:
            csz, v = c
            if csz == sz:
                return self.coerce(v, ty)
            if isinstance(v, int) and csz > sz and ty.k == 'int':
                return v & mask(8 * sz)
            if csz > sz and ty.k == 'int' and z3.is_expr(v) and z3.is_bv(v):
                return simp(z3.Extract(8 * sz - 1, 0, v))
            if isinstance(v, (SV, VV, MV, OV)):
                raise Unsupported('raw access to library object %r' % (v,))
            if csz < sz and ty.k == 'int':
                return self.combine(st, o, ik, m, sz)
            raise Unsupported('size mismatch load %d vs %d in %s' % (sz, csz, o.name))
        # inside a bigger concrete cell?
        if ty.k == 'int' and o.kind in ('local', 'heap', 'glob') and sz < 8:
            for back in range(1, 8):
                cc = o.cells.get((ik, m - back))
                if cc is not None and cc[0] >= back + sz and not isinstance(cc[1], (Ptr, SV, VV, MV, OV, Undef)):
                    v = cc[1]
                    if isinstance(v, int):
                        return (v >> (8 * back)) & mask(8 * sz)
                    if z3.is_bv(v):
                        return simp(z3.Extract(8 * (back + sz) - 1, 8 * back, v))
        # copied region
        for (dk, doff, ln, snap, sp) in reversed(o.regions):
            if dk == ik and doff <= m and m + sz <= doff + ln:
                v = self.load(snap, sp.add(m - doff), ty, mod)
                self.import_new(st, snap)
                return v
        if o.kind == 'glob':
            v = self.glob_init_load(st, o, m, sz, ty, mod)
            if v is not None:
                return v
        if o.kind in ('lazy', 'store') and o.ident is not None:
            v = self.lazy_load(st, oid, ik, m, ty, mod)
            w = st.wobj(oid)
            w.cells[(ik, m)] = (sz, v)
            return self.coerce(v, ty)
        if o.kind == 'zero':
            return NULL if ty.k == 'ptr' else 0
        # uninitialised local
        if ty.k == 'ptr':
            return UNDEF
        if ty.k == 'int':
            v = self.fresh('undef_%s_%d' % (o.name, m), 8 * sz)
            w = st.wobj(oid)
            w.cells[(ik, m)] = (sz, v)
            return self.coerce(v, ty)
        return UNDEF

    def import_new(self, st, snap):
        for i, o in snap.mem.items():
            if i not in st.mem:
                st.mem[i] = o
        for k, v in snap.g.items():
            if isinstance(k, tuple) and k[0] == 'lazyobj':
                st.g.setdefault(k, v)

    def combine(self, st, o, ik, m, sz):
        parts = []
        i = 0
        while i < sz:
            c = o.cells.get((ik, m + i))
            if c is None:
                raise Unsupported('partial load')
            parts.append((c[0], c[1]))
            i += c[0]
        if i != sz:
            raise Unsupported('partial load')
        if all(isinstance(v, int) for _, v in parts):
            r = 0
            sh = 0
            for s, v in parts:
                r |= (v & mask(8 * s)) << sh
                sh += 8 * s
            return r
        return simp(z3.Concat([bv(v, 8 * s) for s, v in reversed(parts)]))

    def coerce(self, v, ty):
        if isinstance(v, (Ptr, FnPtr, Undef, Agg)):
            return v
        if ty.k == 'int':
            if ty.n == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if z3.is_bv(v):
                    # bool stored as byte
                    return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
                return v
            if isinstance(v, bool):
                return int(v)
            if z3.is_expr(v) and z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1, ty.n), z3.BitVecVal(0, ty.n))
            if z3.is_expr(v) and z3.is_bv(v) and v.size() != ty.n:
                if v.size() > ty.n:
                    return simp(z3.Extract(ty.n - 1, 0, v))
                return simp(z3.ZeroExt(ty.n - v.size(), v))
        if ty.k == 'ptr' and isinstance(v, int):
            if v == 0:
                return NULL
            raise Unsupported('int as ptr')
        return v

    def store(self, st, p, v, ty, mod):
        if not isinstance(p, Ptr):
            raise Unsupported('store via %r' % (p,))
        self.check_null(st, p, 'store')
        ty = mod.resolve(ty)
        if ty.k in ('struct', 'array'):
            if isinstance(v, Undef):
                return
            if ty.k == 'struct':
                offs, _ = mod.struct_layout(ty)
                for i, e in enumerate(ty.a):
                    self.store(st, p.add(offs[i]), v.el[i], e, mod)
            else:
                es = mod.size(ty.a)
                for i in range(ty.n):
                    self.store(st, p.add(i * es), v.el[i], ty.a, mod)
            return
        sz = mod.size(ty)
        if isinstance(v, bool):
            v = int(v)
        elif z3.is_expr(v) and z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        self.put(st, p, sz, v)

    def put(self, st, p, sz, v):
        if st.obj(p.obj).kind == 'chars':
            return self.char_store(st, p, sz, v)
        o, ik, m, it = self.locate(st, p)
        if o.kind == 'cstr' or (o.kind == 'glob' and o.data and o.data[2]):
            raise Unsupported('write to constant')
        w = st.wobj(p.obj)
        if o.kind == 'store':
            for (k2, m2) in list(w.cells):
                if k2 != ik and m2 == m:
                    if isinstance(k2, int) and isinstance(ik, int):
                        continue
                    t1 = bv(k2, 64) if isinstance(k2, int) else kterm(k2)
                    t2 = bv(it, 64)
                    if not self.must(st, t1 != t2):
                        raise Unsupported('may-alias vector element write')
        # drop overlapping
        for b in list(w.cells):
            if b[0] == ik and b[1] != m and b[1] < m + sz and m < b[1] + w.cells[b][0]:
                self.split_cell(w, b, m, sz)
        if o.rew == 'frozen':
            raise Unsupported('write to an object after it was put into a container')
        if o.kind == 'lazy' and (ik, m) in w.cells and (ik, m) not in w.written:
            w.rew = True
        w.cells[(ik, m)] = (sz, v)
        if o.ext or o.kind == 'lazy' or (o.ident is not None and self.cur is not None and self.cur.merge):
            w.written = w.written | {(ik, m)}

    def char_store(self, st, p, sz, v):
        """write of one character of the string whose non-const accessor gave the reference"""
        own = st.g.get(('owner', p.obj))
        if own is None or sz != 1 or st.g.get(('stale', p.obj)):
            raise Unsupported('write to characters')
        from . import stl
        o = st.obj(p.obj)
        cur = stl.get_str(self, st, own)
        if not same_val(cur, o.data):
            raise Unsupported('write to characters of a changed string')
        i = self.pindex(st, p)
        n = self.str_len(st, cur)
        self.oblige(st, 'write within the string', z3.ULT(bv(i, 64), bv(n, 64)) if not (conc(i) and conc(n)) else i < n, 'safety', self.loc())
        if isinstance(cur.v, str) and isinstance(i, int) and isinstance(v, int):
            nv = SV(cur.v[:i] + chr(v & 255) + cur.v[i + 1:])
        else:
            nv = SV(strset(cur.z(), bv(i, 64), bv(v, 8)))
            st.assume(slen(nv.v) == slen(cur.z()))
            self.str_len(st, nv)
            st.assume(schr(nv.v, bv(i, 64)) == bv(v, 8))
        st.g[('stale', p.obj)] = True
        stl.set_str(self, st, own, nv)

    def split_cell(self, w, b, m, sz):
        csz, v = w.cells[b]
        del w.cells[b]
        if isinstance(v, int) and csz <= 16:
            for k in range(csz):
                a = b[1] + k
                if not (m <= a < m + sz):
                    w.cells[(b[0], a)] = (1, (v >> (8 * k)) & 0xff)
        elif z3.is_expr(v) and z3.is_bv(v) and csz <= 16:
            for k in range(csz):
                a = b[1] + k
                if not (m <= a < m + sz):
                    w.cells[(b[0], a)] = (1, z3.Extract(8 * k + 7, 8 * k, v))

    def check_null(self, st, p, what):
        if p.obj is None:
            self.oblige(st, 'no null dereference (%s)' % what, False, 'safety', self.loc())
            raise Halt()
        if p.nul is not False:
            if p.nul is True:
                self.oblige(st, 'no null dereference (%s)' % what, False, 'safety', self.loc())
                raise Halt()
            k = ('nn', tkey(p.nul))
            if not st.g.get(k):
                self.oblige(st, 'no null dereference (%s)' % what, z3.Not(p.nul), 'safety', self.loc())
                st.g[k] = True

    def loc(self):
        if self.fnstack:
            f, ins = self.fnstack[-1]
            if ins is not None and ins.dbg:
                return '%s:%s' % (self.prog.base(f.name), f.mod.lines_dbg.get(ins.dbg, '?'))
            return self.prog.base(f.name)
        return None

    def vtable_load(self, st, o, p):
        cls, ident, nm = o.data
        if p.term is not None:
            raise Unsupported('symbolic vtable slot')
        e = self.prog.vtable_entry(cls, p.off // 8)
        if e is None:
            raise Unsupported('vtable of %s' % cls)
        f = FnPtr(e[0], e[1])
        f.virt = (cls, e[2], nm)
        return f

    # ---- globals
    def global_ptr(self, st, mod, name):
        name = name[1:]
        m = mod
        if name not in m.globs or m.globs[name].startswith('external'):
            m2 = self.prog.gindex.get(name)
            if m2 is not None:
                m = m2
        # function?
        f = self.prog.find(mod, name)
        if f is not None:
            return FnPtr(f.mod, name)
        if name in mod.decls or name not in m.globs:
            if name in mod.decls:
                return FnPtr(mod, name)
            raise Unsupported('unknown global ' + name)
        ty, init, const, ext, alias = m.glob(name)
        if alias:
            return self.const(st, m, init)
        loc = m.globs[name].startswith(('private', 'internal'))
        k = ('glob', m.tag if loc else '', name)
        i = st.g.get(k)
        if i is None:
            if ext:
                ob = Obj('lazy', '@' + name, ident=z3.Const('glob!' + name, ObjS), ext=True)
            else:
                ob = Obj('glob', '@' + name, size=m.size(ty), data=(m, name, const, ty, init))
            i = self.stable(st, k, [ob.ident], lambda: st.new(ob))
            st.g[k] = i
        return Ptr(i)

    def glob_init_load(self, st, o, m, sz, ty, mod):
        gm, name, const, gty, init = o.data
        if not const and ty.k == 'int':
            d = self.dyn_init(st, gm, name, m, sz, ty)
            if d is not None:
                return d
        v = self.init_at(st, gm, gty, init, m, sz, ty)
        return v

    def dyn_string(self, o):
        """text of a constant std::string of a file, from its initialiser"""
        gm, name = o.data[0], o.data[1]
        memo = gm.__dict__.setdefault('_dyns', {})
        if name not in memo:
            memo[name] = None
            pat = re.compile(r'@"?%s"?[,) ]' % re.escape(name))
            fs = [f for nm, f in gm.fns.items() if nm.startswith('__cxx_global_var_init') and any('basic_string' in l and pat.search(l) for l in f.lines)]
            if len(fs) == 1:
                try:
                    outs = self.run_fn(State(), fs[0], [])
                    (s3, k, r), = [x for x in outs if x[1] == 'ret']
                    q = self.global_ptr(s3, gm, '@' + name)
                    v = s3.obj(q.obj).cells[(None, 0)][1]
                    memo[name] = v if isinstance(v, SV) and isinstance(v.v, str) else None
                except (Unsupported, KeyError, TypeError, ValueError, AttributeError):
                    pass
        return memo[name]

    def dyn_init(self, st, gm, name, m, sz, ty):
        """value of a scalar global initialised before main: its initialiser is executed; anything unusual gives an unknown value"""
        idx = gm.__dict__.setdefault('_dyn', {})
        if not idx:
            idx['?'] = None
            for nm, f in gm.fns.items():
                if nm.startswith('__cxx_global_var_init'):
                    for l in f.lines:
                        l = l.strip()
                        if l.startswith('store ') and ', ptr @' in l:
                            idx.setdefault(l.split(', ptr @')[1].split(',')[0].split()[0].strip('"'), []).append(nm)
        fs = idx.get(name)
        if not fs:
            return None
        writers = [nm for nm, f in gm.fns.items() if any(l.strip().startswith('store ') and re.search(r', ptr @"?%s"?(,|$)' % re.escape(name), l.strip()) for l in f.lines)] if name not in idx.get('!', {}) else idx['!'][name]
        idx.setdefault('!', {})[name] = writers
        key = ('dyn', name, m, sz)
        if key in gm.__dict__.setdefault('_dynv', {}):
            return gm._dynv[key]
        v = None
        if m == 0 and len(fs) == 1 and writers == fs:
            try:
                s2 = State()
                (s3, k, r), = self.run_fn(s2, gm.fns[fs[0]], [])
                p = self.global_ptr(s3, gm, '@' + name)
                v = s3.obj(p.obj).cells[(None, 0)][1]
                v = self.coerce(v, ty) if conc(v) else None
            except (Unsupported, KeyError, TypeError, ValueError, AttributeError):
                v = None
        if v is None:
            return self.fresh('global', sz * 8)
        gm._dynv[key] = v
        return v

    def init_at(self, st, gm, gty, init, off, sz, ty):
        gty = gm.resolve(gty)
        if init is None:
            return None
        if init.k == 'zero' or init.k == 'undef':
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'double':
                return z3.FPVal(0.0, z3.Float64())
            return self.coerce(0, ty)
        if init.k == 'bytes':
            b = init.v[off:off + sz]
            return int.from_bytes(b, 'little')
        if gty.k == 'struct':
            offs, _ = gm.struct_layout(gty)
            for i in range(len(offs) - 1, -1, -1):
                if offs[i] <= off:
                    return self.init_at(st, gm, gty.a[i], init.v[i], off - offs[i], sz, ty)
        if gty.k == 'array':
            es = gm.size(gty.a)
            return self.init_at(st, gm, gty.a, init.v[off // es], off % es, sz, ty)
        v = self.const(st, gm, init)
        if isinstance(v, int) and ty.k == 'int':
            return (v >> (8 * off)) & mask(8 * sz)
        return self.coerce(v, ty)

    def const(self, st, mod, c):
        k = c.k
        if k == 'int':
            if c.ty.k == 'int' and c.ty.n == 1:
                return bool(c.v & 1)
            return c.v & mask(c.ty.n)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = mod.resolve(c.ty)
            if t.k == 'struct':
                return Agg([self.const(st, mod, C('zero', None, e)) for e in t.a])
            if t.k == 'array':
                return Agg([self.const(st, mod, C('zero', None, t.a)) for _ in range(t.n)])
            if t.k == 'ptr':
                return NULL
            if t.k == 'double':
                return z3.FPVal(0.0, z3.Float64())
            return 0
        if k == 'glob':
            return self.global_ptr(st, mod, c.v)
        if k == 'gep':
            ety, ops = c.v
            base = self.const(st, mod, ops[0])
            return self.gep(st, mod, ety, base, [(self.const(st, mod, x), x.ty) for x in ops[1:]], ops[1:])
        if k == 'agg':
            return Agg([self.const(st, mod, x) for x in c.v])
        if k == 'fp':
            s = c.v
            if s.startswith('0x') and not s.startswith(('0xK', '0xL', '0xM', '0xH', '0xR')):
                bits = int(s, 16)
                return z3.fpBVToFP(z3.BitVecVal(bits, 64), z3.Float64()) if False else z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), z3.Float64()))
            if s.startswith('0x'):
                raise Unsupported('long double constant')
            return z3.FPVal(float(s), z3.Float64())
        if k == 'cast':
            op, v = c.v
            x = self.const(st, mod, v)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return x
            raise Unsupported('const cast ' + op)
        if k == 'bytes':
            return Agg(list(c.v))
        if k == 'meta':
            return None
        raise Unsupported('constant ' + k)

    # ---- gep
    def gep(self, st, mod, ety, base, idx, ops=None):
        if isinstance(base, FnPtr):
            raise Unsupported('gep on fn')
        if isinstance(base, Undef):
            return UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        p = Ptr(base.obj, base.off, base.term, base.stride, base.nul)
        t = ety
        first = True
        for (v, vty) in idx:
            if isinstance(v, bool):
                v = int(v)
            w = vty.n
            if first:
                es = None
                if isinstance(v, int) and v == 0:
                    first = False
                    continue
                es = mod.size(t)
                p = self.padd(st, p, v, w, es)
                first = False
                continue
            tt = mod.resolve(t)
            if tt.k == 'struct':
                offs, _ = mod.struct_layout(tt)
                p = p.add(offs[v])
                t = tt.a[v]
            elif tt.k == 'array':
                es = mod.size(tt.a)
                p = self.padd(st, p, v, w, es)
                t = tt.a
            else:
                raise Unsupported('gep into %r' % tt)
        return p

    def padd(self, st, p, v, w, es):
        if isinstance(v, int):
            return p.add(sgn(v, w) * es)
        if w < 64:
            v = z3.SignExt(64 - w, v)
        v = simp(v)
        if isinstance(v, int):
            return p.add(sgn(v, 64) * es)
        if p.obj is not None:
            o = st.obj(p.obj)
            if o.kind in ('store', 'chars') and o.stride and es != o.stride and p.term is None:
                raise Unsupported('gep stride %d in store of %d' % (es, o.stride))
        if p.term is None:
            return Ptr(p.obj, p.off, v, es, p.nul)
        if p.stride != es:
            raise Unsupported('two symbolic strides')
        nt = simp(p.term + v)
        if isinstance(nt, int):
            return Ptr(p.obj, p.off + sgn(nt, 64) * es, None, 0, p.nul)
        return Ptr(p.obj, p.off, nt, es, p.nul)

    # index (element number) of a pointer into store/chars object
    def pindex(self, st, p):
        o = st.obj(p.obj)
        S = o.stride or 1
        q = p.off // S
        if p.term is None:
            return q & mask(64)
        return simp(p.term + z3.BitVecVal(q & mask(64), 64)) if q else p.term

    def elem_ptr(self, oid, idx, stride, m=0):
        if isinstance(idx, int):
            return Ptr(oid, sgn(idx, 64) * stride + m)
        return Ptr(oid, m, idx, stride)

    def char_load(self, st, o, p):
        if st.g.get(('stale', p.obj)):
            raise Unsupported('read through a reference to a changed string')
        i = self.pindex(st, p)
        return self.char_at(st, o.data, i)

    def char_at(self, st, sv, i):
        """i-th char (BV8) of SV; terminating 0 at length"""
        if isinstance(sv.v, str) and isinstance(i, int):
            i = sgn(i, 64)
            if 0 <= i < len(sv.v):
                return ord(sv.v[i])
            if i == len(sv.v):
                return 0
            self.oblige(st, 'string index in bounds', False, 'safety', self.loc())
            raise Halt()
        s = sv.z()
        n = self.str_len(st, sv)
        it = bv(i, 64)
        k = ('chr', tkey(s), i if isinstance(i, int) else tkey(i))
        if not st.g.get(k):
            self.oblige(st, 'string index in bounds', z3.ULE(it, bv(n, 64)), 'safety', self.loc())
            st.assume(z3.Implies(it == bv(n, 64), schr(s, it) == 0))
            st.g[k] = True
        return schr(s, it)

    def str_len(self, st, sv):
        if isinstance(sv.v, str):
            return len(sv.v)
        k = ('slen', tkey(sv.v))
        if not st.g.get(k):
            st.g[k] = True
            st.assume((slen(sv.v) == 0) == (sv.v == strlit('')))
            st.assume(z3.ULT(slen(sv.v), 1 << 40))
        return slen(sv.v)

    def str_eq(self, a, b):
        if isinstance(a.v, str) and isinstance(b.v, str):
            return a.v == b.v
        return simp(a.z() == b.z())

    # ---- pointers compare
    def ptr_eq(self, st, a, b):
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('compare undef ptr')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            return False
        if a.obj is None and b.obj is None:
            return a.off == b.off
        if a.obj is None:
            a, b = b, a
        if b.obj is None:
            return a.nul
        if a.obj == b.obj:
            if a.term is None and b.term is None:
                r = a.off == b.off
            else:
                if st.obj(a.obj).kind in ('store', 'chars'):
                    S = st.obj(a.obj).stride or 1
                    if a.off % S != b.off % S:
                        r = False
                    else:
                        r = simp(bv(self.pindex(st, a), 64) == bv(self.pindex(st, b), 64))
                else:
                    raise Unsupported('symbolic pointer compare')
            if a.nul is False and b.nul is False:
                return r
            return Or(And(a.nul, b.nul), And(Not(a.nul), Not(b.nul), r))
        oa, ob = st.obj(a.obj), st.obj(b.obj)
        if oa.kind == 'lazy' and ob.kind == 'lazy' and a.term is None and b.term is None:
            r = simp(self.ident_of(st, a) == self.ident_of(st, b))
            if a.nul is False and b.nul is False:
                return r
            return Or(And(a.nul, b.nul), And(Not(a.nul), Not(b.nul), r))
        if oa.kind == 'store' and ob.kind == 'lazy' or oa.kind == 'lazy' and ob.kind == 'store':
            raise Unsupported('pointer compare element/object')
        return And(a.nul, b.nul)

    # ---- main interpreter
    def run_fn(self, st, fn, args):
        """-> list of (state, kind, value)   kind: 'ret' | 'throw'"""
        fn.ensure()
        regs = {}
        if len(args) < len(fn.params):
            raise Unsupported('arity')
        for (n, t, at), a in zip(fn.params, args):
            regs[n] = a
        self.fnstack.append((fn, None))
        try:
            if len(self.fnstack) > 60:
                raise Unsupported('inline depth')
            return self.run_blocks(st, fn, regs, fn.entry, 0, None, None)
        except Unsupported as e:
            if not hasattr(e, 'where'):
                e.where = '%s @%s' % (' > '.join(self.prog.base(f.name)[-50:] for f, _ in self.fnstack[-5:]), self.loc())
            raise
        finally:
            self.fnstack.pop()

    def run_blocks(self, st, fn, regs, blk, pos, prev, limit, start_header=None):
        """limit: None or (set of blocks, header): stop when leaving the set or coming back to header;
        then results carry kind 'exit' (value = (regs, blk, prev)) or 'back'."""
        out = []
        work = [(st, regs, blk, pos, prev, {})]
        loops = fn.loops()
        mod = fn.mod
        first = True
        joining = bool(self.cur is not None and self.cur.merge)
        while work:
            if joining and len(work) > 1:
                work = self.join(fn, mod, work, loops)
            st, regs, blk, pos, prev, visits = work.pop()
            self.tick()
            try:
                while True:
                    if pos == 0 and not (first and limit and blk == limit[1]):
                        if limit is not None:
                            if blk == limit[1]:
                                out.append((st, 'back', (regs, blk, prev)))
                                break
                            if blk not in limit[0]:
                                out.append((st, 'exit', (regs, blk, prev)))
                                break
                        if blk in loops and prev is not None and (prev not in loops[blk] or visits.get(blk, 0) > 0 or True):
                            entering = prev not in loops[blk]
                            r = self.loop_entry(st, fn, regs, blk, prev, loops[blk], entering, visits)
                            if r is not None:
                                for (s2, rg2, b2, p2) in r:
                                    work.append((s2, rg2, b2, 0, p2, dict(visits)))
                                break
                    first = False
                    res = self.step_block(st, fn, regs, blk, pos, prev)
                    # res: list of (st, regs, action)
                    if len(res) == 1 and res[0][2][0] == 'goto':
                        st, regs, act = res[0]
                        _, nb, np = act
                        pos = np
                        if np == 0:
                            prev = blk
                            blk = nb
                            if joining and work and merge.is_join(fn, blk):
                                work.append((st, regs, blk, 0, prev, visits))
                                break
                        continue
                    for (s2, rg2, act) in reversed(res):
                        if act[0] == 'goto':
                            _, nb, np = act
                            work.append((s2, rg2, nb, np, prev if np else blk, dict(visits)))
                        elif act[0] == 'ret':
                            out.append((s2, 'ret', act[1]))
                        elif act[0] == 'throw':
                            out.append((s2, 'throw', act[1]))
                    break
            except Halt:
                continue
        return out

    def join(self, fn, mod, work, loops):
        """the next work item comes last: one of the earliest block; states at the start of one block are joined"""
        idx = merge.rpo(fn)
        work.sort(key=lambda w: (-idx.get(w[2], 0), -w[3]))
        b = work[-1][2]
        same = [w for w in work if w[2] == b and (w[3] == 0 or w[5].get('!phi') == b)]
        if len(same) < 2 or not merge.is_join(fn, b):
            return work
        rest = [w for w in work if not any(w is x for x in same)]
        out = []
        for w in same:
            st, regs, blk, pos, prev, visits = w
            if pos == 0 and fn.blocks[b][0].op == 'phi' and b not in loops:
                regs = dict(regs)
                pos = self.phis(st, fn, regs, blk, 0, prev)
                visits = dict(visits)
                visits['!phi'] = b
                w = (st, regs, blk, pos, prev, visits)
            for k, o in enumerate(out):
                if o[3] == pos and o[5] == visits and (b not in loops or (o[4] in loops[b]) == (prev in loops[b]) and prev not in loops[b]):
                    try:
                        s2, rg = merge.merge(self, fn, b, o[0], o[1], st, regs)
                    except merge.NoMerge as e:
                        if self.opts.get('debug'):
                            print('no join at', b, self.loc(), e)
                        continue
                    out[k] = (s2, rg, b, pos, prev, visits)
                    self.joins = getattr(self, 'joins', 0) + 1
                    break
            else:
                out.append(w)
        return rest + out

    def phis(self, st, fn, regs, blk, pos, prev):
        code = fn.blocks[blk]
        vals = {}
        q = pos
        while code[q].op == 'phi':
            pi = code[q]
            for v, lab in pi.a:
                if lab == prev or (prev == fn.entry and lab == fn.entry_alias):
                    vals[pi.d] = self.val(st, fn.mod, regs, v)
                    break
            else:
                raise Unsupported('phi')
            q += 1
        regs.update(vals)
        return q

    def step_block(self, st, fn, regs, blk, pos, prev):
        """execute from blk[pos] until control transfer or fork."""
        code = fn.blocks[blk]
        mod = fn.mod
        n = len(code)
        while True:
            ins = code[pos]
            self.steps += 1
            self.fnstack[-1] = (fn, ins)
            op = ins.op
            try:
                if op == 'load':
                    regs[ins.d] = self.load(st, self.val(st, mod, regs, ins.a[0]), ins.ty, mod)
                elif op == 'store':
                    self.store(st, self.val(st, mod, regs, ins.a[1]), self.val(st, mod, regs, ins.a[0]), ins.ty, mod)
                elif op == 'alloca':
                    sz = mod.size(ins.ty)
                    i = st.new(Obj('local', ins.d, size=sz))
                    regs[ins.d] = Ptr(i)
                elif op == 'getelementptr':
                    base = self.val(st, mod, regs, ins.a[0])
                    idx = [(self.val(st, mod, regs, x), x.ty) for x in ins.a[1:]]
                    regs[ins.d] = self.gep(st, mod, ins.ty, base, idx)
                elif op == 'call' or op == 'invoke':
                    callee = ins.x[0] if op == 'invoke' else ins.x
                    args = [self.val(st, mod, regs, a[0]) for a in ins.a]
                    res = self.call(st, fn, ins, callee, args, regs)
                    if res is None:
                        pos += 1
                        if op == 'invoke':
                            return [(st, regs, ('goto', ins.x[1], 0))]
                        continue
                    outl = []
                    single = len(res) == 1
                    for (s2, kind, v) in res:
                        rg = regs if single else dict(regs)
                        if kind == 'ret':
                            if ins.d is not None:
                                rg[ins.d] = v
                            if op == 'invoke':
                                outl.append((s2, rg, ('goto', ins.x[1], 0)))
                            else:
                                outl.append((s2, rg, ('goto', blk, pos + 1)))
                        else:
                            if op == 'invoke':
                                rg['!exc'] = v
                                outl.append((s2, rg, ('goto', ins.x[2], 0)))
                            else:
                                outl.append((s2, rg, ('throw', v)))
                    if single and op == 'call' and res[0][1] == 'ret':
                        st = res[0][0]
                        pos += 1
                        continue
                    return outl
                elif op == 'jmp':
                    return [(st, regs, ('goto', ins.a[0], 0))]
                elif op == 'br':
                    c = self.val(st, mod, regs, ins.a[0])
                    if not isinstance(c, bool):
                        c = simp(bl(c))
                    if isinstance(c, bool):
                        return [(st, regs, ('goto', ins.a[1] if c else ins.a[2], 0))]
                    return self.fork2(st, regs, c, ins.a[1], ins.a[2])
                elif op == 'ret':
                    v = self.val(st, mod, regs, ins.a[0]) if ins.a else None
                    return [(st, regs, ('ret', v))]
                elif op == 'switch':
                    v = self.val(st, mod, regs, ins.a[0])
                    w = ins.ty.n
                    if isinstance(v, int):
                        tgt = ins.a[1]
                        for cv, lab in ins.a[2]:
                            if (cv & mask(w)) == v:
                                tgt = lab
                                break
                        return [(st, regs, ('goto', tgt, 0))]
                    res = []
                    bytgt = {}
                    neg = []
                    for cv, lab in ins.a[2]:
                        e = v == z3.BitVecVal(cv, w)
                        bytgt.setdefault(lab, []).append(e)
                        neg.append(z3.Not(e))
                    bytgt.setdefault(ins.a[1], []).append(z3.And(neg) if neg else z3.BoolVal(True))
                    for lab, es in bytgt.items():
                        c = z3.Or(es) if len(es) > 1 else es[0]
                        if self.feasible(st, c):
                            s2 = st.copy()
                            s2.assume(c)
                            res.append((s2, dict(regs), ('goto', lab, 0)))
                    return res
                elif op == 'phi':
                    pos = self.phis(st, fn, regs, blk, pos, prev)
                    continue
                elif op == 'unreachable':
                    return []
                elif op == 'landingpad':
                    exc = regs['!exc']
                    sel = self.landing(st, mod, ins, exc)
                    regs[ins.d] = Agg([Ptr(exc.obj) if exc.obj else NULL, sel])
                    regs['!cur'] = exc
                    self.curexc = exc
                elif op == 'resume':
                    return [(st, regs, ('throw', regs.get('!cur', regs.get('!exc'))))]
                elif op == 'select':
                    c = self.val(st, mod, regs, ins.a[0])
                    a = self.val(st, mod, regs, ins.a[1])
                    b = self.val(st, mod, regs, ins.a[2])
                    c = simp(bl(c)) if not isinstance(c, bool) else c
                    if isinstance(c, bool):
                        regs[ins.d] = a if c else b
                    elif isinstance(a, (Ptr, FnPtr)):
                        res = []
                        for cc, v in ((c, a), (z3.Not(c), b)):
                            if self.feasible(st, cc):
                                s2 = st.copy()
                                s2.assume(cc)
                                rg = dict(regs)
                                rg[ins.d] = v
                                res.append((s2, rg, ('goto', blk, pos + 1)))
                        return res
                    else:
                        w = ins.ty.n if ins.ty.k == 'int' else None
                        if w == 1:
                            regs[ins.d] = simp(z3.If(c, bl(a), bl(b)))
                        elif w:
                            regs[ins.d] = simp(z3.If(c, bv(a, w), bv(b, w)))
                        else:
                            regs[ins.d] = z3.If(c, a, b)
                elif op == 'extractvalue':
                    v = self.val(st, mod, regs, ins.a[0])
                    for i in ins.x:
                        v = v.el[i]
                    regs[ins.d] = v
                elif op == 'insertvalue':
                    v = self.val(st, mod, regs, ins.a[0])
                    e = self.val(st, mod, regs, ins.a[1])
                    if isinstance(v, Undef):
                        v = Agg([UNDEF] * len(mod.resolve(ins.ty).a))
                    v = Agg(list(v.el))
                    if len(ins.x) != 1:
                        raise Unsupported('deep insertvalue')
                    v.el[ins.x[0]] = e
                    regs[ins.d] = v
                else:
                    regs[ins.d] = self.alu(st, mod, regs, ins)
            except NeedFork as nf:
                res = []
                for alt in nf.alts:
                    cond = alt[0]
                    if self.feasible(st, cond):
                        s2 = st.copy()
                        if cond is not True:
                            s2.assume(cond)
                        if len(alt) > 2:
                            s2.g[alt[1]] = alt[2]
                        else:
                            alt[1](s2)
                        res.append((s2, dict(regs), ('goto', blk, pos)) if pos else (s2, dict(regs), ('goto', blk, 0)))
                if pos == 0:
                    # restart at position 0 would re-trigger loop/phi handling: run directly
                    o2 = []
                    for (s2, rg, _) in res:
                        o2.extend(self.step_block(s2, fn, rg, blk, pos, prev))
                    return o2
                return res
            pos += 1

    def fork2(self, st, regs, c, a, b):
        ft = self.feasible(st, c)
        nc = z3.Not(c)
        ff = self.feasible(st, nc) if ft else True
        if ft and not ff:
            st.assume(c)
            return [(st, regs, ('goto', a, 0))]
        if ff and not ft:
            st.assume(nc)
            return [(st, regs, ('goto', b, 0))]
        s2 = st.copy()
        s2.assume(nc)
        st.assume(c)
        return [(st, regs, ('goto', a, 0)), (s2, dict(regs), ('goto', b, 0))]

    def val(self, st, mod, regs, c):
        if c.k == 'reg':
            return regs[c.v]
        if c.k == 'int':
            if c.ty.n == 1:
                return bool(c.v & 1)
            return c.v & mask(c.ty.n)
        return self.const(st, mod, c)

    def landing(self, st, mod, ins, exc):
        for i, (k, c) in enumerate(ins.a):
            if k == 'cleanup':
                continue
            if k == 'catch':
                if c.k == 'null':
                    return 1
                nm = c.v[1:] if c.k == 'glob' else None
                if nm and exc_is_a(exc.ty, nm):
                    return 1000 + hash(nm) % 100000
        return 0

    # ---- ALU
    def alu(self, st, mod, regs, ins):
        op = ins.op
        if op == 'icmp':
            a = self.val(st, mod, regs, ins.a[0])
            b = self.val(st, mod, regs, ins.a[1])
            return self.icmp(st, ins.x, ins.ty, a, b)
        if op == 'fcmp':
            a = self.val(st, mod, regs, ins.a[0])
            b = self.val(st, mod, regs, ins.a[1])
            return fcmp(ins.x, a, b)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.val(st, mod, regs, ins.a[0])
            b = self.val(st, mod, regs, ins.a[1])
            return self.binop(st, op, ins, a, b)
        if op in ('trunc', 'zext', 'sext'):
            a = self.val(st, mod, regs, ins.a[0])
            fw = ins.a[0].ty.n
            tw = ins.ty.n
            if isinstance(a, Undef):
                return UNDEF
            if isinstance(a, Ptr) or isinstance(a, PInt):
                if op == 'trunc':
                    raise Unsupported('trunc ptr')
                return a
            if isinstance(a, bool):
                a = int(a)
            if isinstance(a, int):
                if op == 'sext':
                    v = sgn(a, fw) & mask(tw)
                else:
                    v = a & mask(tw)
                return bool(v) if tw == 1 else v
            if z3.is_bool(a):
                if op == 'zext':
                    return z3.If(a, z3.BitVecVal(1, tw), z3.BitVecVal(0, tw))
                return z3.If(a, z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw))
            if op == 'trunc':
                if tw == 1:
                    return simp(z3.Extract(0, 0, a) == z3.BitVecVal(1, 1))
                return simp(z3.Extract(tw - 1, 0, a))
            return simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(tw - fw, a))
        if op == 'ptrtoint':
            a = self.val(st, mod, regs, ins.a[0])
            return a
        if op == 'inttoptr':
            a = self.val(st, mod, regs, ins.a[0])
            return a if not isinstance(a, int) else (NULL if a == 0 else Unsup('inttoptr'))
        if op in ('bitcast', 'freeze'):
            a = self.val(st, mod, regs, ins.a[0])
            ft, tt = ins.a[0].ty, ins.ty
            if ft.k == tt.k:
                return a
            raise Unsupported('bitcast')
        if op == 'fneg':
            return z3.fpNeg(self.val(st, mod, regs, ins.a[0]))
        if op in ('sitofp', 'uitofp'):
            a = bv(self.val(st, mod, regs, ins.a[0]), ins.a[0].ty.n)
            if ins.ty.k != 'double':
                raise Unsupported(op)
            return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), a, z3.Float64())
        if op in ('fptosi', 'fptoui'):
            a = self.val(st, mod, regs, ins.a[0])
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(ins.ty.n))
        raise Unsupported('instruction ' + op)

    def icmp(self, st, pr, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, int):
                a = NULL if a == 0 else a
            if isinstance(b, int):
                b = NULL if b == 0 else b
            if pr in ('eq', 'ne'):
                r = self.ptr_eq(st, a, b)
                return r if pr == 'eq' else Not(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
                x, y = bv(self.pindex(st, a), 64), bv(self.pindex(st, b), 64)
                return simp({'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pr](x, y))
            raise Unsupported('ptr icmp ' + pr)
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('icmp undef')
        w = ty.n
        a, b = [simp(bv(x.v, 64) * x.k) if isinstance(x, PInt) else x for x in (a, b)]
        if w == 1:
            a1, b1 = bl(a), bl(b)
            if pr == 'eq':
                return simp(a1 == b1)
            if pr == 'ne':
                return simp(a1 != b1)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            ua, ub = a & mask(w), b & mask(w)
            return {'eq': ua == ub, 'ne': ua != ub, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb,
                    'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}[pr]
        x, y = bv(a, w), bv(b, w)
        e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]()
        return simp(e)

    def binop(self, st, op, ins, a, b):
        w = ins.ty.n
        fl = ins.x
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            return self.ptr_arith(st, op, a, b)
        if w == 1:
            x, y = bl(a), bl(b)
            if op == 'xor':
                return simp(z3.Xor(x, y))
            if op == 'and':
                return simp(z3.And(x, y))
            if op == 'or':
                return simp(z3.Or(x, y))
            raise Unsupported('i1 ' + op)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        ca, cb = isinstance(a, int), isinstance(b, int)
        if ca and cb:
            sa, sb = sgn(a, w), sgn(b, w)
            if op == 'add':
                r = sa + sb
            elif op == 'sub':
                r = sa - sb
            elif op == 'mul':
                r = sa * sb
            elif op == 'and':
                return a & b
            elif op == 'or':
                return a | b
            elif op == 'xor':
                return a ^ b
            elif op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.oblige(st, 'shift amount in range', False, 'safety', self.loc())
                    raise Halt()
                if op == 'shl':
                    return (a << b) & mask(w)
                if op == 'lshr':
                    return a >> b
                return (sa >> b) & mask(w)
            else:
                if b == 0:
                    self.oblige(st, 'no division by zero', False, 'safety', self.loc())
                    raise Halt()
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == 'sdiv' else sa - q * sb) & mask(w)
            if 'nsw' in fl and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                self.oblige(st, 'no signed overflow (%s)' % op, False, 'safety', self.loc())
            return r & mask(w)
        x, y = bv(a, w), bv(b, w)
        if 'nsw' in fl and op in ('add', 'sub', 'mul'):
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.oblige(st, 'no signed overflow (%s)' % op, c, 'safety', self.loc())
        if op == 'add':
            e = x + y
        elif op == 'sub':
            e = x - y
        elif op == 'mul':
            e = x * y
        elif op == 'and':
            e = x & y
        elif op == 'or':
            e = x | y
        elif op == 'xor':
            e = x ^ y
        elif op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, 'shift amount in range', z3.ULT(y, z3.BitVecVal(w, w)), 'safety', self.loc())
            e = x << y if op == 'shl' else (z3.LShR(x, y) if op == 'lshr' else x >> y)
        else:
            self.oblige(st, 'no division by zero', y != 0, 'safety', self.loc())
            if op in ('sdiv', 'srem'):
                self.oblige(st, 'no signed division overflow',
                            z3.Not(z3.And(x == z3.BitVecVal(1 << (w - 1), w), y == z3.BitVecVal(-1, w))), 'safety', self.loc())
            e = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        return simp(e)

    def ptr_arith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is None and b.obj is None:
                return 0
            if a.obj != b.obj:
                raise Unsupported('pointer difference of different objects')
            if a.term is None and b.term is None:
                return (a.off - b.off) & mask(64)
            S = st.obj(a.obj).stride or a.stride or b.stride
            d = simp(bv(self.pindex(st, a), 64) - bv(self.pindex(st, b), 64))
            return PInt(d, S)
        if isinstance(a, PInt) and op == 'mul' and isinstance(b, int):
            return simp(bv(a.v, 64) * (a.k * b)) if b != 1 else simp(bv(a.v, 64) * a.k)
        if isinstance(b, PInt) and op == 'mul' and isinstance(a, int):
            return simp(bv(b.v, 64) * (b.k * a))
        if isinstance(a, PInt) and op == 'sdiv' and isinstance(b, int):
            if b == a.k:
                return a.v
            if a.k % b == 0:
                return simp(bv(a.v, 64) * z3.BitVecVal(a.k // b, 64))
        if isinstance(a, PInt) and op in ('ashr',) and isinstance(b, int):
            k = 1 << b
            if a.k % k == 0:
                return PInt(a.v, a.k // k) if a.k != k else a.v
        raise Unsupported('pointer arithmetic ' + op)

    # ---- calls
    def call(self, st, fn, ins, callee, args, regs):
        """None when handled in place without value changes, else list of outcomes"""
        mod = fn.mod
        if callee.k == 'glob':
            name = callee.v[1:]
            tgtmod = mod
        else:
            fp = self.val(st, mod, regs, callee)
            if not isinstance(fp, FnPtr):
                raise Unsupported('indirect call through %r' % (fp,))
            name = fp.name
            tgtmod = fp.mod
            if fp.virt is not None:
                cls, meth, onm = fp.virt
                vb = '%s::%s' % (cls, meth)
                ct = self.contract_of('virtual ' + vb, None) or self.contract_of(vb, name) or self.contract_of('virtual ' + self.prog.base(name), None)
                exact = self.cur is not None and cls == self.cur.cls and onm == 'this' and cls.split('::')[-1] not in OPEN_CLASSES
                if exact and not (ct is not None and vb not in self.cur.inline_set):
                    ct = None
                if ct is not None:
                    self.used_contracts.add(ct.name)
                    return ct.apply(self, st, args, ins, mod, name)
                if not exact:
                    raise Unsupported('virtual call of %s without contract' % vb)
        if name.startswith('llvm.'):
            return self.intrinsic(st, mod, name, args, ins)
        if name == '__assert_fail':
            msg = self.cstr(st, args[0])
            self.oblige(st, 'assert(%s) holds' % msg, False, 'assert', self.loc())
            return []
        f = self.prog.find(tgtmod, name)
        base = self.prog.base(name)
        return self.call_named(st, tgtmod, name, base, f, args, ins, mod)

    def contract_of(self, base, name):
        ct = self.contracts.get(base)
        if isinstance(ct, list):
            d = self.prog.dem.get(name, name) if name else ''
            for c in ct:
                if c.sig is None or (name and c.sig in d):
                    return c
            return None
        if ct is not None and ct.sig is not None and name is not None and ct.sig not in self.prog.dem.get(name, name):
            return None
        return ct

    def call_named(self, st, tgtmod, name, base, f, args, ins, mod):
        ct = self.contract_of(base, name)
        if ct is not None and not (self.cur is not None and base in self.cur.inline_set):
            self.used_contracts.add(ct.name)
            return ct.apply(self, st, args, ins, mod, name)
        h = BUILTINS.get(base)
        if h is not None:
            r = h(self, Call(self, st, tgtmod, name, base, f, args, ins, mod))
            if r is not NotImplemented:
                self.used_lib.add(base)
                return r
        for pat, hh in PATTERNS:
            if pat.match(base):
                r = hh(self, Call(self, st, tgtmod, name, base, f, args, ins, mod))
                if r is not NotImplemented:
                    self.used_lib.add(base)
                    return r
        if f is None:
            raise Unsupported('call of external function ' + self.prog.dem.get(name, name)[:160])
        for g, _ in self.fnstack:
            if g is f:
                raise Unsupported('recursion in ' + base)
        if not base.startswith('std::') and not base.startswith('__gnu_cxx'):
            self.inlined.add(base)
            self.refine_class(st, base, args)
        return self.run_fn(st, f, args)

    def refine_class(self, st, base, args):
        """a member function of a derived class runs on an object known by its base class: a downcast in the code (it is
        the code's own claim about the object; a wrong downcast is undefined behaviour outside these contracts)"""
        if not args or not isinstance(args[0], Ptr) or args[0].obj is None or args[0].term is not None or args[0].off != 0 or '::' not in base:
            return
        o = st.obj(args[0].obj)
        d = base.rsplit('::', 1)[0]
        if o.kind != 'lazy' or o.cls is None or o.cls == d or d not in self.prog.layouts:
            return
        key = '_ZTVN' + ''.join('%d%s' % (len(x), x) for x in d.split('::')) + 'E'
        if self.prog.derives(None, key, o.cls):
            w = st.wobj(args[0].obj)
            w.cls = d
            w.cells.pop((None, 0), None)        # the virtual table pointer read through the base class

    def cstr(self, st, p):
        """python str of a constant C string pointer"""
        o = st.obj(p.obj)
        if o.kind == 'glob':
            gm, name, const, ty, init = o.data
            if init.k == 'bytes':
                b = init.v[p.off:]
                return b.split(b'\0')[0].decode('latin-1')
            if init.k == 'zero':
                return ''
        return None

    def cstr_value(self, st, p):
        """SV of the NUL-terminated C string at p"""
        if p.obj is None:
            raise Unsupported('null C string')
        s = self.cstr(st, p)
        if s is not None:
            return SV(s)
        o = st.obj(p.obj)
        if o.kind == 'chars':
            i = self.pindex(st, p)
            if isinstance(i, int) and i == 0:
                return o.data
            raise Unsupported('char buffer offset')
        if o.kind == 'lazy':
            if p.term is None:
                v = z3.Function('cstr', ObjS, StrS)(self.ident_of(st, p))
                return SV(v)
        raise Unsupported('C string from %s' % o.kind)

    def intrinsic(self, st, mod, name, args, ins):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume')):
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, args[0], args[1], args[2], mod)
            return None
        if name.startswith('llvm.memset'):
            if not isinstance(args[2], int) or not isinstance(args[1], int):
                raise Unsupported('memset')
            self.memset(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.is.constant'):
            return [(st, 'ret', False)]
        if name.startswith('llvm.eh.typeid.for'):
            p = args[0]
            o = st.obj(p.obj)
            return [(st, 'ret', 1000 + hash(o.name[1:]) % 100000)]
        if name.startswith('llvm.abs'):
            w = ins.ty.n
            a = args[0]
            if isinstance(a, int):
                r = abs(sgn(a, w)) & mask(w)
            else:
                if args[1] is True:
                    self.oblige(st, 'no signed overflow (abs)', a != z3.BitVecVal(1 << (w - 1), w), 'safety', self.loc())
                r = simp(z3.If(a < 0, -a, a))
            return [(st, 'ret', r)]
        if name.startswith('llvm.trap'):
            self.oblige(st, 'trap unreachable', False, 'safety', self.loc())
            return []
        if name.startswith('llvm.is.fpclass'):
            x = args[0]
            m = args[1]
            if m == 3:
                return [(st, 'ret', z3.fpIsNaN(x))]
            if m == 516:
                return [(st, 'ret', z3.fpIsInf(x))]
        if name.startswith('llvm.fabs'):
            return [(st, 'ret', z3.fpAbs(args[0]))]
        raise Unsupported('intrinsic ' + name)

    def memset(self, st, p, v, n):
        if n == 0:
            return
        o, ik, m, it = self.locate(st, p)
        w = st.wobj(p.obj)
        for k in list(w.cells):
            if k[0] == ik and k[1] < m + n and m < k[1] + w.cells[k][0]:
                del w.cells[k]
        if v == 0:
            zi = st.new(Obj('zero', 'zeros', size=n))
            w.regions = w.regions + ((ik, m, n, st_snapshot(st), Ptr(zi)),)
        else:
            for j in range(n):
                w.cells[(ik, m + j)] = (1, v & 0xff)

    def memcpy(self, st, d, s, n, mod):
        if not isinstance(n, int):
            raise Unsupported('symbolic memcpy')
        if n == 0:
            return
        self.check_null(st, d, 'memcpy')
        self.check_null(st, s, 'memcpy')
        so, sik, sm, _ = self.locate(st, s)
        do, dik, dm, _ = self.locate(st, d)
        w = st.wobj(d.obj)
        for k in list(w.cells):
            if k[0] == dik and k[1] < dm + n and dm < k[1] + w.cells[k][0]:
                del w.cells[k]
        if do.ext:
            for k in range(0, n):
                w.written = w.written | {(dik, dm + k)}
        full = 0
        for k, (csz, v) in list(so.cells.items()):
            if k[0] == sik and sm <= k[1] and k[1] + csz <= sm + n:
                w.cells[(dik, k[1] - sm + dm)] = (csz, v)
                full += csz
        if full < n:
            snap = st_snapshot(st)
            w.regions = w.regions + ((dik, dm, n, snap, s),)

    # ---- loops
    def loop_entry(self, st, fn, regs, blk, prev, body, entering, visits):
        """Decide what to do at a loop header.  None: just execute (concrete unrolling)."""
        if not entering:
            visits[blk] = visits.get(blk, 0) + 1
            if visits[blk] > int(self.opts.get('unroll', 400)):
                raise Unsupported('loop does not terminate concretely in %s' % self.prog.base(fn.name))
        spec = self.cur.loop_spec(self, st, fn, blk) if self.cur is not None else None
        if entering:
            visits[blk] = 0
        if spec is not None and any(i.op == 'phi' for i in fn.blocks[blk]):
            spec = 'auto'        # not a loop of the source text (destruction of an initialiser list)
        if spec is None or spec == 'auto':
            if self.probe(st, fn, regs, blk, prev, body):
                return None
            if visits.get(blk, 0) > 2 and not entering:       # (the iterations before are peeled)
                raise Unsupported('loop turns symbolic while unrolling')
        return self.loop_summary(st, fn, regs, blk, prev, body, spec)

    def probe(self, st, fn, regs, blk, prev, body):
        """True when the exit decision of this iteration is concrete"""
        s2 = st.copy()
        n0 = len(self.obl)
        saved = self.opts.get('on_fail')
        self.opts['on_fail'] = None
        try:
            rg = dict(regs)
            b, p = blk, prev
            for _ in range(40):
                code = fn.blocks[b]
                t = code[-1]
                try:
                    res = self.step_block(s2, fn, rg, b, 0, p)
                except (Halt, Unsupported):
                    return False
                k = 0
                while len(res) == 1 and res[0][2][0] == 'goto' and res[0][2][2] != 0:
                    s2, rg, act = res[0]
                    res = self.step_block(s2, fn, rg, act[1], act[2], p)
                    k += 1
                    if k > 200:
                        return False
                if len(res) != 1:
                    return False
                s2, rg, act = res[0]
                if act[0] != 'goto':
                    return True
                succ = fn.succs(b)
                nb = act[1]
                if any(x not in body for x in succ):
                    return True
                if nb == blk:
                    return True
                p, b = b, nb
                if b in fn.loops() and b != blk:
                    return True
            return True
        finally:
            self.opts['on_fail'] = saved
            del self.obl[n0:]

    def loop_summary(self, st, fn, regs, blk, prev, body, spec):
        """cut the loop at its header"""
        if any(i.op == 'phi' for i in fn.blocks[blk]):
            raise Unsupported('phi at loop header')
        M = {}           # (objid, cellkey) -> 'kind'
        self.lastmem = {}
        saved = self.opts.get('on_fail')
        n0 = len(self.obl)
        rounds = 0
        lp = None
        GM = {}
        tight = {}       # iterators whose bound is one less than the length (`it != end - 1`)
        while True:
            rounds += 1
            if rounds > 12 + getattr(spec, 'extra_rounds', 0):
                raise Unsupported('loop frame inference does not converge')
            del self.obl[n0:]
            self.opts['on_fail'] = None
            sh = st.copy()
            hav = self.havoc_cells(st, sh, M, GM)
            lp = LoopCtx(self, st, sh, M, hav, fn, regs, GM, tight)
            self.default_inv(lp)
            if spec is not None and spec != 'auto':
                spec.assume(lp)
            for c in lp.inv_defaults(sh):
                sh.assume(c)
            npc = len(sh.pc)
            nfa = len(sh.foralls)
            res = self.run_blocks(sh.copy(), fn, dict(regs), blk, 0, prev, (body, blk))
            new = False
            for (s2, kind, v) in res:
                if kind != 'back':
                    continue
                self.lastmem.update(s2.mem)
                for key, why in self.diff_cells(sh, s2):
                    if key not in M:
                        if key[0] not in st.mem and key[0] not in REG:
                            continue    # contents of a container that was havocked as a whole: arbitrary anyway
                        M[key] = why
                        new = True
                for gk in list(set(sh.g) | set(s2.g)):
                    if isinstance(gk, str) and gk.startswith('gh:') and sh.g.get(gk) is not s2.g.get(gk):
                        if gk not in GM:
                            GM[gk] = True
                            new = True
            if not new and hasattr(spec, 'prune'):
                new = spec.prune(lp, [r[0] for r in res if r[1] == 'back'])
            if not new:
                new = lp.tighten([r[0] for r in res if r[1] == 'back'])
            if not new:
                break
        self.opts['on_fail'] = saved
        # final accounted pass: obligations of the body + invariant entry/preservation
        del self.obl[n0:]
        for (nm, c) in lp.inv_entry():
            self.oblige(st, 'loop invariant holds on entry: ' + nm, c, 'invariant', self.loc())
        if spec is not None and spec != 'auto':
            for (nm, c) in spec.entry(lp):
                self.oblige(st, 'loop invariant holds on entry: ' + nm, c, 'invariant', self.loc())
        res = self.run_blocks(sh.copy(), fn, dict(regs), blk, 0, prev, (body, blk))
        backs = [r for r in res if r[1] == 'back']
        outs = [r for r in res if r[1] != 'back']
        for (s2, kind, v) in backs:
            for (nm, c) in lp.inv_preserved(s2):
                self.oblige(s2, 'loop invariant preserved: ' + nm, c, 'invariant', self.loc())
            if spec is not None and spec != 'auto':
                for (nm, c) in spec.preserved(lp, s2):
                    self.oblige(s2, 'loop invariant preserved: ' + nm, c, 'invariant', self.loc())
        # universal facts about completed iterations
        fa = lp.forall_fact(sh, npc, nfa, backs)
        result = []
        for (s2, kind, v) in outs:
            if fa is not None:
                s2.foralls.append(fa)
            if hasattr(spec, 'at_exit'):
                spec.at_exit(lp, s2)
            if kind == 'exit':
                rg2, b2, p2 = v
                result.append((s2, rg2, b2, p2))
            elif kind == 'ret' or kind == 'throw':
                raise Unsupported('return inside loop')
        return result

    def havoc_cells(self, st, sh, M, GM=()):
        hav = {}
        for gk in GM:
            v = sh.g.get(gk)
            if isinstance(v, (int,)) and not isinstance(v, bool) or (z3.is_expr(v) and z3.is_bv(v)):
                nv = z3.FreshConst(z3.BitVecSort(v.size() if z3.is_expr(v) else 64), 'lg')
            elif isinstance(v, bool) or v is None or z3.is_bool(v):
                nv = z3.FreshConst(z3.BoolSort(), 'lg')
            else:
                nv = z3.FreshConst(v.sort(), 'lg')
            sh.g[gk] = nv
            hav[gk] = nv
        for (oid, ck), why in M.items():
            o = sh.wobj(oid)
            old = st.obj(oid).cells.get(ck)
            csz, smp = why
            v = smp
            if old is not None:
                csz, v0 = old
                if not isinstance(v0, Undef):
                    v = v0
            if isinstance(v, (bool, int)) or (z3.is_expr(v) and z3.is_bv(v)):
                nv = self.fresh('loop_%s' % o.name.strip('%@'), 8 * csz)
            elif isinstance(v, Ptr):
                if v.obj is not None and smp is not None and isinstance(smp, Ptr) and smp.obj == v.obj and st.mem.get(v.obj) is not None and \
                        st.obj(v.obj).kind in ('store', 'chars'):
                    S = st.obj(v.obj).stride or 1
                    nv = Ptr(v.obj, v.off % S, self.fresh('it', 64), S, False)
                elif isinstance(smp, Ptr) and smp.obj is not None and smp.off == 0 and smp.term is None and smp.obj in self.lastmem and \
                        self.lastmem[smp.obj].kind == 'lazy':
                    oid2 = self.lazy_obj(sh, z3.FreshConst(ObjS, 'loopptr'), self.lastmem[smp.obj].cls, 'loopptr')
                    nv = Ptr(oid2, 0, nul=z3.FreshConst(z3.BoolSort(), 'loopnull'))
                else:
                    nv = UNDEF
            elif isinstance(v, SV):
                nv = SV(z3.FreshConst(StrS, 'loopstr'))
            elif isinstance(v, VV):
                nv = self.fresh_vec_like(sh, v)
            elif isinstance(v, MV):
                nv = self.fresh_map_like(sh, v)
            elif isinstance(v, Undef) or isinstance(v, FnPtr):
                nv = UNDEF
            elif isinstance(v, OV):
                nv = OV(None, v.size)
            elif z3.is_expr(v):
                nv = z3.FreshConst(v.sort(), 'loop')
            else:
                raise Unsupported('havoc of %r' % (v,))
            o.cells[ck] = (csz, nv)
            if o.ext:
                o.written = o.written | {ck}
            hav[(oid, ck)] = nv
        return hav

    def fresh_vec_like(self, st, v):
        so = st.obj(v.store)
        ident = z3.FreshConst(ObjS, 'loopvec')
        n = self.fresh('loopvec_n', 64)
        st.assume(z3.ULT(n, 1 << 40))
        i = st.new(Obj('store', so.name + "'", ident=ident, stride=so.stride, data={k: x for k, x in so.data.items() if k != 'upd'}))
        st.g[('len', i)] = n
        return type(v)(i, n)

    def fresh_map_like(self, st, v):
        raise Unsupported('map modified in loop')

    def diff_cells(self, a, b):
        """cells of objects known in a, whose value differs in b"""
        for oid, ob in b.mem.items():
            oa = a.mem.get(oid)
            if oa is None or oa is ob:
                continue
            for ck, (csz, v) in ob.cells.items():
                c = oa.cells.get(ck)
                if c is None:
                    # lazily initialised external cell: unchanged unless written
                    if oa.kind in ('lazy', 'store') and ob.ident is not None and ck not in ob.written:
                        continue
                    if oa.kind == 'glob' and ck not in ob.written and oa.data[2]:
                        continue
                    yield (oid, ck), (csz, v)
                    continue
                if not same_val(c[1], v):
                    yield (oid, ck), (csz, v)
            for ck, (csz, v) in oa.cells.items():
                if ck not in ob.cells:
                    yield (oid, ck), (csz, v)

    def default_inv(self, lp):
        pass


def st_snapshot(st):
    return st.copy()


def same_val(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if isinstance(a, (int, bool)):
        return a == b
    if isinstance(a, Ptr):
        if a.key() != b.key():
            return False
        if a.nul is b.nul:
            return True
        return z3.is_expr(a.nul) and z3.is_expr(b.nul) and a.nul.eq(b.nul)
    if isinstance(a, SV):
        if isinstance(a.v, str) or isinstance(b.v, str):
            return a.v == b.v if type(a.v) == type(b.v) else False
        return a.v.eq(b.v)
    if isinstance(a, VV):
        return a.store == b.store and same_val(a.n, b.n)
    if isinstance(a, FnPtr):
        return a.name == b.name
    if isinstance(a, MV):
        return False
    if isinstance(a, OV):
        return a.v == b.v
    if z3.is_expr(a):
        return a.eq(b)
    return False


class PInt:
    """symbolic pointer difference: v * k bytes"""
    __slots__ = ('v', 'k')

    def __init__(self, v, k):
        self.v = v
        self.k = k


def Unsup(m):
    raise Unsupported(m)


class Houdini:
    """loop invariants chosen from candidates over the cells the loop writes: those that hold on entry and
    are preserved together.  gen(lp) -> (facts, [(key, name, fn(state) -> condition)]); facts are instances of definitions"""
    extra_rounds = 12

    def __init__(self, gen, cases=None):
        self.gen = gen
        self.cases = cases      # lp -> conditions that cover everything (each proved apart)
        self.dead = set()

    def cands(self, lp):
        c = self.__dict__.setdefault('_c', {})
        k = id(lp)
        if c.get('lp') is not lp:
            c.clear()
            c['lp'] = lp
            facts, cs = self.gen(lp)
            # a candidate about an arbitrary fresh position may come with what it says about all positions (after the loop)
            self.general = {x[0]: x[3] for x in cs if len(x) > 3}
            cs = [x[:3] for x in cs]
            c[k] = (facts, [x for x in cs if x[0] not in self.dead])
            for x in list(c[k][1]):
                if not lp.eng.must_inst(lp.st, bl(x[2](lp.st))):
                    self.dead.add(x[0])
                    c[k][1].remove(x)
        return c[k]

    def assume(self, lp):
        facts, cs = self.cands(lp)
        for f in facts:
            lp.sh.assume(f)
        for (k, nm, fn) in cs:
            lp.sh.assume(bl(fn(lp.sh)))
            if k in self.general:       # the hypothesis is about every position
                lp.sh.foralls.append(self.general[k](lp.sh))

    def prune(self, lp, backs):
        bad = False
        for (k, nm, fn) in list(self.cands(lp)[1]):
            if any(not lp.eng.must_inst(s2, x) for s2 in backs for x in self.split(lp, s2, fn)):
                self.dead.add(k)
                bad = True
        return bad

    def entry(self, lp):
        return [(nm, fn(lp.st)) for (k, nm, fn) in self.cands(lp)[1]]

    def preserved(self, lp, s2):
        return [(nm, x) for (k, nm, fn) in self.cands(lp)[1] for x in self.split(lp, s2, fn)]

    def at_exit(self, lp, s2):
        for (k, nm, fn) in self.cands(lp)[1]:
            if k in self.general:
                s2.foralls.append(self.general[k](s2))

    def split(self, lp, s2, fn):
        f = bl(fn(s2))
        return [z3.Implies(c, f) for c in self.cases(lp)] if self.cases else [f]


class LoopCtx:
    """Everything an invariant may talk about."""

    def __init__(self, eng, st, sh, M, hav, fn, regs, GM, tight=None):
        self.eng = eng
        self.tight = {} if tight is None else tight
        self.st = st        # state on entry
        self.sh = sh        # havoced header state
        self.M = M
        self.hav = hav
        self.fn = fn
        self.regs = regs
        self.GM = GM
        self.iters = []     # (oid, ck, store, idx0, idxterm)
        for (oid, ck), nv in [(k, v) for k, v in hav.items() if isinstance(k, tuple)]:
            if isinstance(nv, Ptr) and nv.term is not None:
                old = st.obj(oid).cells.get(ck)
                if old is not None and isinstance(old[1], Ptr):
                    self.iters.append((oid, ck, nv.obj, eng.pindex(st, old[1]), nv.term))
        self.bounds = {}

    def regs_arg(self, i):
        """parameter i (the hidden one of a returned object not counted)"""
        ps = [p for p in self.fn.params if 'sret' not in str(p[2])]
        return self.regs[ps[i][0]]

    def n_of(self, store):
        """length of the sequence stored in `store`"""
        o = self.st.obj(store)
        n = self.eng.str_len(self.st, o.data) if o.kind == 'chars' else self.st.g.get(('len', store))
        return bv(n, 64) - 1 if n is not None and store in self.tight else n

    def tighten(self, backs):
        """an iterator may pass the end unless it stops one before it: use the tighter bound where it holds on entry and is preserved"""
        new = False
        for (oid, ck, store, i0, t) in self.iters:
            n = self.n_of(store)
            if n is None or store in self.tight or conc(n):
                continue
            if not self.eng.must(self.st, z3.And(bv(n, 64) != 0, z3.ULE(bv(i0, 64), bv(n, 64) - 1))):
                continue
            for s2 in backs:
                c = s2.obj(oid).cells.get(ck)
                if c is None or not isinstance(c[1], Ptr) or c[1].obj != store:
                    break
                if not self.eng.must(s2, z3.ULE(bv(self.eng.pindex(s2, c[1]), 64), bv(n, 64))):
                    self.tight[store] = True
                    new = True
                    break
        return new

    def inv_defaults(self, sh):
        out = []
        for (oid, ck, store, i0, t) in self.iters:
            n = self.n_of(store)
            out.append(z3.ULE(bv(i0, 64), t))
            if n is not None:
                out.append(z3.ULE(t, bv(n, 64)))
        return out

    def inv_entry(self):
        out = []
        for (oid, ck, store, i0, t) in self.iters:
            n = self.n_of(store)
            if n is not None:
                out.append(('iterator starts within the sequence', z3.ULE(bv(i0, 64), bv(n, 64)) if not (conc(i0) and conc(n)) else i0 <= n))
        return out

    def inv_preserved(self, s2):
        out = []
        for (oid, ck, store, i0, t) in self.iters:
            c = s2.obj(oid).cells.get(ck)
            if c is None or not isinstance(c[1], Ptr) or c[1].obj != store:
                out.append(('iterator stays in its sequence', False))
                continue
            i2 = bv(self.eng.pindex(s2, c[1]), 64)
            n = self.n_of(store)
            out.append(('iterator does not move backwards', z3.ULE(bv(i0, 64), i2)))
            if n is not None:
                out.append(('iterator stays within the sequence', z3.ULE(i2, bv(n, 64))))
        return out

    def forall_fact(self, sh, npc, nfa, backs):
        """for every completed iteration index i: the continue-condition held at i.  Only when a single
        iterator advances by exactly one in every iteration."""
        for it in self.iters if backs else ():
            fa = self.forall_over(it, npc, backs)
            if fa is not None:
                return fa
        return None

    def forall_over(self, it, npc, backs):
        (oid, ck, store, i0, t) = it
        disj = []
        for (s2, kind, v) in backs:
            c = s2.obj(oid).cells.get(ck)
            if c is None or not isinstance(c[1], Ptr):
                return None
            i2 = self.eng.pindex(s2, c[1])
            if not self.eng.must(s2, bv(i2, 64) == t + 1):
                return None
            disj.append(z3.And([bl(x) for x in s2.pc[npc:]]) if len(s2.pc) > npc else z3.BoolVal(True))
        body = z3.Or(disj) if len(disj) > 1 else disj[0]
        free = consts_of(body)
        pre = set()
        for p in self.st.pc:
            pre |= consts_of_cached(p)
        # symbols introduced inside the iteration (havoced cells, fresh results) are existential
        bound = [c for c in free if c.decl().name().find('!') >= 0 and not c.eq(t) and c not in pre and is_fresh(c) and self.introduced(c)]
        return Forall(i0, t, t, body, bound, store)     # (the value in the exit state bounds the completed iterations)

    def introduced(self, c):
        return True


def is_fresh(c):
    return True


_cc = {}


def consts_of_cached(e):
    k = e.get_id()
    if k not in _cc:
        _cc[k] = (set(consts_of(e)), e)
    return _cc[k][0]


def consts_of(e):
    out = []
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


class Call:
    """context handed to library models"""
    __slots__ = ('eng', 'st', 'tmod', 'name', 'base', 'f', 'args', 'ins', 'mod')

    def __init__(self, eng, st, tmod, name, base, f, args, ins, mod):
        self.eng, self.st, self.tmod, self.name, self.base, self.f, self.args, self.ins, self.mod = \
            eng, st, tmod, name, base, f, args, ins, mod

    @property
    def dem(self):
        return self.eng.prog.dem.get(self.name, self.name)


PATTERNS = []

EXC_BASES = {
    '_ZTISt16invalid_argument': ('_ZTISt11logic_error', '_ZTISt9exception'),
    '_ZTISt12out_of_range': ('_ZTISt11logic_error', '_ZTISt9exception'),
}


def exc_is_a(t, nm):
    return t == nm or nm in EXC_BASES.get(t, ())


def fcmp(pr, a, b):
    un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    o = {'oeq': z3.fpEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ}
    if pr in o:
        return simp(o[pr](a, b))
    if pr == 'one':
        return simp(z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b))))
    if pr == 'une':
        return simp(z3.Not(z3.fpEQ(a, b)))
    if pr == 'uno':
        return simp(un)
    if pr == 'ord':
        return simp(z3.Not(un))
    if pr == 'ueq':
        return simp(z3.Or(un, z3.fpEQ(a, b)))
    u = {'ugt': z3.fpGT, 'uge': z3.fpGEQ, 'ult': z3.fpLT, 'ule': z3.fpLEQ}
    if pr in u:
        return simp(z3.Or(un, u[pr](a, b)))
    raise Unsupported('fcmp ' + pr)


from . import merge  # noqa: E402
