"""Contracts about the outcome of every function, over the LLVM IR of the real sources.

Every function f has contracts about two ghosts: `err` ("an error was certainly given to the logger since f was entered") and `hi` ("an error may have
been given to the logger since f was entered"; in C24: "something done to an output file since f was entered is not known to have worked"):
    F: f returns false  ==> err        T: f returns true ==> err        N: f returns null ==> err        A: err on every return
    C: f returns true (not null) ==> not hi          D: f returns false (null) ==> not hi          Q: not hi on every return
    H<n>: f returns the number n ==> not hi          E<n>: f returns the number n ==> err          X: f returns a number other than 0 ==> err
and every loop has the invariants I: hi only if it held when the loop was entered, and (C24) J: the same for "something is not checked yet".
C24: opening, writing, flushing an std::ofstream, and copying and creating files, set the ghost "not known to have worked"; only a check of the stream (good, fail,
bad, operator bool / !) after a flush, or of the std::error_code, with the outcome "worked" clears it; with the outcome "failed" hi is set for good.
A function is verified against the contracts of its callees, never their bodies; the set of contracts is the greatest one in which every contract is
discharged (start from all candidates, drop those whose obligation is refuted, repeat until nothing is dropped).  By induction over the depth of the calls
of a finite run every remaining contract holds.  No contract is written per function, so a function that is added, split or renamed gets its own.
What the verification condition keeps of a function: every branch, the local scalars (the ones whose address is given away are unknown after every call),
members of the arguments between two calls, the results of calls, and the ghosts.  Everything else (members, strings, containers) is unknown at every read,
which can only make an obligation fail.  A virtual call may run every override, a call through std::function every closure converted to that signature.
Loops are cut at their header: locals assigned in the loop are unknown there, err only grows.
"""
import re
import time
import z3
from .llparse import LLError

MAXW = 64
KINDS = ('A', 'F', 'T', 'N', 'C', 'D', 'Q', 'X') + tuple('H%d' % i for i in range(4)) + tuple('E%d' % i for i in range(4))
QUIET = ('C', 'D', 'Q', 'H0', 'H1', 'H2', 'H3')          # contracts about `hi`
True_, False_ = z3.BoolVal(True), z3.BoolVal(False)


class Unsupp(Exception):
    pass


def width(t):
    if t is None:
        return None
    if t.k == 'int' and t.n <= MAXW:
        return t.n
    if t.k == 'ptr':
        return 64
    return None


def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<({[':
            d += 1
        elif c in '>)}]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class World:
    """all functions of the modules, their calls resolved"""

    def __init__(self, prog, inside, logs, events=None, streams=False, quiet=None):
        self.prog = prog
        self.streams = streams               # the ghost `hi` follows the files that are written (see Fun.stream)
        self.quiet = quiet                   # pattern of functions whose indirect calls are assumed not to matter
        self.inside = inside                 # base name -> is it code under verification
        self.events = events or {}           # mangled name -> contracts of a function of another library that may fail
        self.logs = logs                     # base name -> does calling it report an error
        self.fns = {}                        # key -> Fn
        for m in prog.mods:
            for n, f in m.fns.items():
                if f.header.startswith('define available'):
                    continue
                k = self.key(m, f)
                self.fns.setdefault(k, f)
        self.byname = {}
        self._virt = {}
        self._lam = {}
        self._lib = {}
        self._hnd = {}
        self.unk = {}
        self.targets_cache = {}

    def key(self, m, f):
        return (m.tag + ':' if f.header.startswith('define internal') or f.name == 'main' else '') + f.name

    def dem(self, n):
        return self.prog.dem.get(n, n)

    def base(self, n):
        return self.prog.base(n)

    def dem_key(self, k):
        return self.dem(self.fns[k].name)

    def label(self, k):
        f = self.fns[k]
        return self.base(f.name)

    def resolve(self, mod, name):
        """key of a called function, or None when it is not defined here"""
        f = mod.fns.get(name)
        if f is not None and not f.header.startswith('define available'):
            return self.key(mod, f)
        if name in self.fns:
            return name
        f = self.prog.find(mod, name)
        if f is not None:
            return self.key(f.mod, f)
        return None

    def virt(self, cls, slot):
        """keys of everything a virtual call may run"""
        r = self._virt.get((cls, slot))
        if r is None:
            r = []
            for k, m in self.prog.gindex.items():
                if not k.startswith('_ZTVN'):
                    continue
                if not self.prog.derives(m, k, cls):
                    continue
                ty, init, const, ext, alias = m.glob(k)
                if init is None:
                    return None
                e = init.v[0].v
                if 2 + slot >= len(e) or e[2 + slot].k != 'glob':
                    r = None
                    break
                n = e[2 + slot].v[1:]
                if n == '__cxa_pure_virtual':
                    continue
                k2 = self.resolve(m, n)
                if k2 is None:
                    r = None
                    break
                if k2 not in r:
                    r.append(k2)
            self._virt[(cls, slot)] = r
        return r

    def taken(self):
        """functions whose address is taken: in tables, as member pointers, in the virtual tables by slot"""
        if not hasattr(self, '_taken'):
            self._taken, self._slots = {}, {}
            for m in self.prog.mods:
                for k in m.globs:
                    if not k.startswith('_ZTVN'):
                        continue
                    ty, init, const, ext, alias = m.glob(k)
                    if init is None:
                        continue
                    for n, e in enumerate(init.v[0].v):
                        if n >= 2 and e.k == 'glob':
                            x = self.resolve(m, e.v[1:])
                            if x is not None and self.inside(self.fns[x].name):
                                self._slots.setdefault((self.fsig(x), n - 2), set()).add(x)
                                self._taken.setdefault(self.fsig(x), set()).add(x)
            for k, f in list(self.fns.items()):
                if not self.inside(f.name):
                    continue
                f.ensure()
                for b in f.order:
                    for i in f.blocks[b]:
                        ops = [a for a, _ in i.a] if i.op in ('call', 'invoke') else [v for v, _ in i.a] if i.op == 'phi' else (i.a or [])
                        todo = [a for a in ops if hasattr(a, 'k')]
                        while todo:
                            c = todo.pop()
                            if c.k == 'glob':
                                x = self.resolve(f.mod, c.v[1:])
                                if x is not None and self.inside(self.fns[x].name):
                                    self._taken.setdefault(self.fsig(x), set()).add(x)
                            elif isinstance(getattr(c, 'v', None), (list, tuple)):
                                todo += [x for x in c.v if hasattr(x, 'k')]
        return self._taken

    def fsig(self, k):
        f = self.fns[k].ensure()
        return (str(f.rty),) + tuple(str(t) for n, t, at in f.params)

    def by_sig(self, sig):
        return set(self.taken().get(sig, ())) or {None}

    def by_slot(self, sig, slot):
        self.taken()
        return sorted(self._slots.get((sig, slot), ()))

    def lambdas(self, mod, key):
        """the functions of the verified code that an instantiation of a library algorithm runs"""
        r = self._lam.get(key)
        if r is not None:
            return r
        seen, todo, out = {key}, [key], []
        while todo:
            k = todo.pop()
            f = self.fns[k].ensure()
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op not in ('call', 'invoke'):
                        continue
                    c = i.x if i.op == 'call' else i.x[0]
                    if c.k != 'glob':
                        return None
                    n = c.v[1:]
                    if n.startswith('llvm.'):
                        continue
                    k2 = self.resolve(f.mod, n)
                    if k2 is None or k2 in seen:
                        continue
                    seen.add(k2)
                    if self.inside(self.fns[k2].name):
                        if width(self.fns[k2].ensure().rty) == 1:
                            out.append(k2)
                    else:
                        todo.append(k2)
        self._lam[key] = out
        return out


    def handlers(self, sig):
        """what a std::function of the given signature may run: the invokers of every closure converted to it"""
        r = self._hnd.get(sig)
        if r is None:
            p = 'std::_Function_handler<%s, ' % sig
            r = self._hnd[sig] = [k for k, f in self.fns.items() if '_M_invoke(' in self.dem(f.name) and p in self.dem(f.name)]
        return r

    def lib_calls(self, key):
        """functions of the verified code that a library function may run, by name; None in the set: not known"""
        r = self._lib.get(key)
        if r is not None:
            return r
        seen, todo, out = {key}, [key], set()
        while todo:
            k = todo.pop()
            f = self.fns[k].ensure()
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op not in ('call', 'invoke'):
                        continue
                    c = i.x if i.op == 'call' else i.x[0]
                    if c.k != 'glob':
                        d = self.dem(f.name)
                        m = FUNC.search(d)
                        if 'default_delete' in d or '::__stoa<' in d or '_Function_base::~_Function_base' in d or FCOPY.search(d):
                            pass                               # deletes through a virtual destructor / copies or destroys a closure
                        elif self.quiet and self.quiet.search(d):
                            self.unk.setdefault('quiet: ' + d[:200], 0)
                        elif m:
                            for k2 in self.handlers(m.group(1)):
                                if k2 not in seen:
                                    seen.add(k2)
                                    todo.append(k2)
                        elif self.streams and self.by_sig(call_sig(i)) != {None}:
                            out |= self.by_sig(call_sig(i))
                        else:
                            out.add(None)
                            self.unk.setdefault(d[:200], 0)
                            self.unk[d[:200]] += 1
                        continue
                    n = c.v[1:]
                    if n.startswith('llvm.'):
                        continue
                    k2 = self.resolve(f.mod, n)
                    if k2 is None or k2 in seen:
                        continue
                    seen.add(k2)
                    if self.inside(self.fns[k2].name):
                        out.add(k2)
                    else:
                        todo.append(k2)
        self._lib[key] = out
        return out


FUNC = re.compile(r'std::function<(.*)>::operator\(\)\(')
FCOPY = re.compile(r'std::function<.*>::function\(std::function<')
ALGO = re.compile(r'^bool std::(all_of|any_of|none_of)<')
SOPEN = re.compile(r'_ZNSt14basic_ofstreamIcSt11char_traitsIcEE(C1|4open)')
SFS = re.compile(r'_ZNSt10filesystem(4copy|9copy_file|18create_directories|16create_directory|6rename)')
SWRITE = re.compile(r'_ZStls|_ZNSols|_ZNSo5write|_ZNSo3put')
_IOS = '_ZNKSt9basic_iosIcSt11char_traitsIcEE'
SCHECK = {_IOS + 'ntEv': 'bad', _IOS + '4failEv': 'bad', _IOS + '3badEv': 'bad', _IOS + '4goodEv': 'good', _IOS + 'cvbEv': 'good'}
UPTR = re.compile(r'^(?:[\w:]+[*&]? )?std::unique_ptr<(.*?), std::default_delete<.*>::(?:operator->|operator\*|get)\(\)')


def call_sig(i):
    return (str(i.ty),) + tuple(str(a.ty) for a, _ in i.a)


def n_mem(i):
    c = i.x if i.op == 'call' else i.x[0]
    return c.v.startswith('@llvm.mem')


class Fun:
    """verification condition of one function"""

    def __init__(self, w, key, K):
        self.w, self.key, self.K = w, key, K          # K(callee key, kind) -> z3 Bool
        self.f = w.fns[key].ensure()
        self.order = list(dict.fromkeys(self.f.order))
        self.calls = set()                            # callee keys whose contracts are used
        self.n = 0
        self.ass = []
        self.s = self
        self.built = False
        self.analyse()

    def add(self, e):
        self.ass.append(e)

    def analyse(self):
        f = self.f
        self.defs = {}
        self.stores = {}
        for b in self.order:
            for i in f.blocks[b]:
                if i.d:
                    self.defs[i.d] = i
                if i.op == 'store' and i.a[1].k == 'reg':
                    self.stores.setdefault(i.a[1].v, []).append(i)
        self.locals()
        self.tg = {}
        self.may = {}
        self.maycalls = set()
        self.reports = False
        for b in self.order:
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke'):
                    t = self.tg[id(i)] = self.targets(i)
                    self.may[id(i)] = self.maycall(i, t)
                    self.maycalls |= self.may[id(i)]
                    if t is None or t[0] == 'pure':
                        continue
                    if t[0] == 'log':
                        self.reports = True
                    elif t[0] not in ('ev', 'st'):
                        self.calls.update(t[2] if t[0] == 'algo' else t[1])

    def fresh(self, wd, nm='v'):
        self.n += 1
        return z3.Bool('%s%d' % (nm, self.n)) if wd == 1 else z3.BitVec('%s%d' % (nm, self.n), wd)

    # ---- analysis of local memory
    def locals(self):
        f = self.f
        al, bad = {}, set()
        for b in self.order:
            for i in f.blocks[b]:
                if i.op == 'alloca' and width(i.ty) and not i.a:
                    al[i.d] = i.ty
        esc = set()
        for b in self.order:
            for i in f.blocks[b]:
                if i.op == 'load':
                    a = i.a[0]
                    if a.k == 'reg' and a.v in al and width(i.ty) != width(al[a.v]):
                        bad.add(a.v)
                    continue
                if i.op == 'store':
                    v, a = i.a
                    if v.k == 'reg' and v.v in al:
                        esc.add(v.v)
                    if a.k == 'reg' and a.v in al and width(v.ty) != width(al[a.v]):
                        bad.add(a.v)
                    continue
                ops = []
                if i.op in ('call', 'invoke'):
                    c = i.x if i.op == 'call' else i.x[0]
                    if c.k == 'glob' and c.v.startswith('@llvm.'):
                        if not c.v.startswith('@llvm.mem'):
                            continue
                    ops = [a for a, _ in i.a]
                elif i.op == 'phi':
                    ops = [v for v, _ in i.a]
                elif i.a:
                    ops = [a for a in i.a if hasattr(a, 'k')]
                for a in ops:
                    if a is not None and getattr(a, 'k', None) == 'reg' and a.v in al:
                        esc.add(a.v)
        for x in bad:
            al.pop(x, None)
        self.al, self.esc = al, esc & set(al)

    def cls_of(self, v, depth=0):
        """class an address points to, where the code says it"""
        if v.k != 'reg' or depth > 6:
            return None
        f = self.f
        d = self.defs.get(v.v)
        if d is None:
            for j, (n, t, at) in enumerate(f.params):
                if n == v.v:
                    dem = self.w.dem(f.name)
                    base = self.w.base(f.name)
                    if n == '%this' and '{lambda' not in base and "'lambda" not in base:
                        return base.rsplit('::', 1)[0]
                    return self.param_class(j)
            return None
        if d.op == 'load' and d.a[0].k == 'reg':
            st = [i for i in self.stores.get(d.a[0].v, [])]
            if len(st) == 1 and d.a[0].v in self.al and d.a[0].v not in self.esc:
                return self.cls_of(st[0].a[0], depth + 1)
            return None
        if d.op in ('call', 'invoke'):
            c = d.x if d.op == 'call' else d.x[0]
            if c.k == 'glob':
                m = UPTR.match(self.w.dem(c.v[1:]))
                if m:
                    return m.group(1).replace(' const', '').strip()
        return None

    def param_class(self, j):
        dem = self.w.dem(self.f.name)
        i = dem.rfind(')')
        d = 0
        for k in range(i, -1, -1):
            if dem[k] == ')':
                d += 1
            elif dem[k] == '(':
                d -= 1
                if d == 0:
                    break
        else:
            return None
        ps = split_top(dem[k + 1:i])
        skip = sum(1 for n, t, at in self.f.params if n == '%this' or 'sret' in at)
        j -= skip
        if 0 <= j < len(ps):
            m = re.match(r'^([\w:]+)(?: const)?[&*]$', ps[j])
            if m:
                return m.group(1)
        return None

    def targets(self, i):
        """('log',) / ('fn', [keys]) / ('algo', name, [keys]) / None"""
        w = self.w
        c = i.x if i.op == 'call' else i.x[0]
        if c.k == 'glob':
            n = c.v[1:]
            if n.startswith('llvm.'):
                return ('pure',)
            if w.streams:
                s = self.stream(n, i)
                if s:
                    return ('st', s)
            if w.logs(w.base(n)):
                return ('log',)
            if n in w.events:
                return ('ev', w.events[n])
            k = w.resolve(self.f.mod, n)
            if k is None:
                return None
            m = ALGO.match(w.dem(n))
            if m:
                ls = w.lambdas(self.f.mod, k)
                return ('algo', m.group(1), ls) if ls and len(ls) == 1 else None
            if w.streams and not w.inside(w.fns[k].name) and FUNC.search(w.dem(n)):
                r = w.lib_calls(k)
                return ('fn', sorted(r)) if r and None not in r and all(width(w.fns[x].ensure().rty) == width(i.ty) for x in r) else None
            return ('fn', [k]) if w.inside(w.fns[k].name) else None
        if c.k != 'reg':
            return None
        d = self.defs.get(c.v)                       # virtual: load of gep of load of the object
        if d is None or d.op != 'load' or d.a[0].k != 'reg':
            return None
        g = self.defs.get(d.a[0].v)
        slot = 0
        vt = None
        if g is not None and g.op == 'getelementptr' and len(g.a) == 2 and g.a[1].k == 'int':
            slot, vt = g.a[1].v, g.a[0]
        elif g is not None and g.op == 'load':
            vt = d.a[0]
        if vt is None or vt.k != 'reg':
            return None
        vl = self.defs.get(vt.v)
        if vl is None or vl.op != 'load':
            return None
        cls = self.cls_of(vl.a[0])
        if cls is None:
            r = w.by_slot(self.sig(i), slot) if w.streams else None
            return ('fn', r) if r else None
        r = w.virt(cls, slot)
        return ('fn', r) if r else None

    def file_of(self, v, depth=0):
        """the local std::ofstream a stream argument belongs to"""
        d = self.defs.get(v.v) if v.k == 'reg' else None
        if d is None or depth > 40:
            return None
        if d.op == 'alloca':
            return d.d if 'basic_ofstream' in str(d.ty) else None
        if d.op == 'getelementptr':
            return self.file_of(d.a[0], depth + 1)
        if d.op in ('call', 'invoke'):
            c = d.x if d.op == 'call' else d.x[0]
            if c.k == 'glob' and SWRITE.match(c.v[1:]):
                return self.file_of(d.a[0][0], depth + 1)
        return None

    def stream(self, n, i):
        """what a call does to a file: open, write, flush, good (true: no failure), bad (true: failure)"""
        if not n.startswith(('_ZSt', '_ZNSt', '_ZNKSt', '_ZNSo')):
            return None
        if n == '_ZNKSt10error_codecvbEv':
            return 'ecbad'
        if SFS.match(n) and n.endswith('RSt10error_code'):
            return 'fs'
        k = 'open' if SOPEN.match(n) else 'write' if SWRITE.match(n) else 'flush' if n == '_ZNSo5flushEv' else SCHECK.get(n)
        return k if k and i.a and self.file_of(i.a[0][0]) else None

    def sig(self, i):
        return call_sig(i)

    def table(self):
        """the functions in the constant tables the function reads (a call through a pointer taken from a table)"""
        if not hasattr(self, '_table'):
            r = set()
            for b in self.order:
                for i in self.f.blocks[b]:
                    if i.op == 'getelementptr' and i.a[0].k == 'glob':
                        g = self.w.prog.glob(self.f.mod, i.a[0].v) if hasattr(self.w.prog, 'glob') else self.f.mod.glob(i.a[0].v[1:])
                        if g is None or g[1] is None or not g[2]:
                            continue
                        todo = [g[1]]
                        while todo:
                            c = todo.pop()
                            if c.k == 'glob':
                                k = self.w.resolve(self.f.mod, c.v[1:])
                                if k is not None:
                                    r.add(k)
                            elif isinstance(getattr(c, 'v', None), (list, tuple)):
                                todo += [x for x in c.v if hasattr(x, 'k')]
            self._table = r
        return self._table

    def maycall(self, i, t):
        """everything the call may run that may report: callee keys, None for anything, 'log'"""
        w = self.w
        if t == ('pure',):
            return set()
        if t is not None and t[0] == 'st':
            return {'ev'}
        if t is not None and t[0] in ('log', 'ev'):
            return {t[0]}
        if t is not None and t[0] == 'fn':
            return set(t[1])
        c = i.x if i.op == 'call' else i.x[0]
        if c.k == 'glob':
            k = w.resolve(self.f.mod, c.v[1:])
            if k is None:
                return set()                          # other libraries
            return {k} if w.inside(w.fns[k].name) else w.lib_calls(k)
        if c.k == 'reg':
            d = self.defs.get(c.v)
            if d is not None and d.op == 'load' and d.a[0].k == 'glob' and not w.inside(d.a[0].v[1:]):
                return set()                          # a function variable of another library (xmlFree)
            if w.streams:
                return self.table() or w.by_sig(self.sig(i))
        return {None}

    # ---- encoding
    def build(self):
        f = self.f
        loops = f.loops()
        # topological order without back edges
        order, seen = [], set()
        st = [(f.entry, iter(f.succs(f.entry)))]
        seen.add(f.entry)
        while st:
            x, it = st[-1]
            for t in it:
                if t in loops and x in loops[t]:
                    continue
                if t not in seen:
                    seen.add(t)
                    st.append((t, iter(f.succs(t))))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        self.val = {}
        for n, t, at in f.params:
            if width(t):
                self.val[n] = self.fresh(width(t), 'p')
        for n in self.al:
            pass
        inc = {b: [] for b in order}                  # block -> [(cond, state, err, from)]
        s0 = {n: self.fresh(width(t), 'l') for n, t in self.al.items()}
        inc[f.entry].append((True_, s0, (False_, False_, False_, False_), None))
        self.rets = []
        self.heads = {}
        self.dheads = {}
        self.entry_hi = {}
        self.reach = {}
        for b in order:
            es = inc[b]
            if not es:
                continue
            reach = self.reach[b] = self.fresh(1, 'r')
            self.s.add(reach == z3.Or([e[0] for e in es]))
            if len(es) == 1 and b not in loops:
                mem, err = dict(es[0][1]), es[0][2]
            else:
                mem = {}
                for n in self.al:
                    vs = [e[1][n] for e in es]
                    if all(x is vs[0] for x in vs):
                        mem[n] = vs[0]
                    else:
                        v = self.fresh(width(self.al[n]), 'm')
                        for e in es:
                            self.s.add(z3.Implies(e[0], v == e[1][n]))
                        mem[n] = v
                err = []
                for j in range(4):
                    vs = [e[2][j] for e in es]
                    if all(x is vs[0] for x in vs):
                        err.append(vs[0])
                    else:
                        v = self.fresh(1, 'e')
                        for e in es:
                            self.s.add(z3.Implies(e[0], v == e[2][j]))
                        err.append(v)
                err = tuple(err)
            if b in loops:
                has_call = False
                for x in loops[b]:
                    for i in f.blocks[x]:
                        if i.op == 'store' and i.a[1].k == 'reg' and i.a[1].v in mem:
                            mem[i.a[1].v] = self.fresh(width(self.al[i.a[1].v]), 'h')
                        if i.op in ('call', 'invoke'):
                            has_call = True
                if has_call:
                    for n in self.esc:
                        mem[n] = self.fresh(width(self.al[n]), 'h')
                e2, h2 = self.fresh(1, 'e'), self.fresh(1, 'h')
                dirty = err[2:]
                if any(self.tg[id(i)] is not None and self.tg[id(i)][0] == 'st' for x in loops[b] for i in f.blocks[x] if i.op in ('call', 'invoke')):
                    dirty = (self.fresh(1, 'd'), self.fresh(1, 'd'))
                    self.s.add(z3.Implies(self.K(self.key, 'J' + b), dirty[0] == err[2]))
                    self.dheads[b] = []
                self.s.add(z3.Implies(err[0], e2))
                # invariant of the loop: nothing was reported since it was entered
                inv = self.K(self.key, 'I' + b)
                self.heads[b] = []
                self.entry_hi[b] = err[1], err[2]
                self.s.add(z3.Implies(inv, h2 == err[1]))
                err = (e2, h2) + dirty
            self.block(b, reach, mem, err, inc, pos, loops, es)

    def opnd(self, c, wd=None):
        wd = wd or width(c.ty)
        if wd is None:
            return None
        if c.k == 'reg':
            v = self.val.get(c.v)
            if v is None:
                v = self.fresh(wd, 'u')
                self.val[c.v] = v
            return v
        if c.k == 'int':
            return z3.BoolVal(bool(c.v & 1)) if wd == 1 else z3.BitVecVal(c.v, wd)
        if c.k == 'null':
            return z3.BitVecVal(0, 64)
        if c.k == 'zero':
            return False_ if wd == 1 else z3.BitVecVal(0, wd)
        v = self.fresh(wd, 'c')
        if c.k in ('glob',) and wd == 64:
            self.s.add(v != 0)
        return v

    def path(self, v, depth=0):
        """name of a member of an argument: (argument, offsets), or None"""
        d = self.defs.get(v.v) if v.k == 'reg' else None
        if d is None or depth > 8:
            return None
        if d.op == 'getelementptr' and all(x.k == 'int' for x in d.a[1:]):
            p = self.path(d.a[0], depth + 1)
            return p + (str(d.x),) + tuple(x.v for x in d.a[1:]) if p else None
        if d.op == 'load' and d.a[0].k == 'reg' and d.a[0].v in self.al and d.a[0].v not in self.esc:
            st = self.stores.get(d.a[0].v, [])
            if len(st) == 1 and st[0].a[0].k == 'reg' and st[0].a[0].v in [n for n, t, at in self.f.params]:
                return (st[0].a[0].v,)
        return None

    def block(self, b, reach, mem, err, inc, pos, loops, es):
        f = self.f

        def edge(t, cond):
            if t in loops and b in loops[t]:
                self.heads[t].append(z3.And(reach, cond, err[1], z3.Not(self.entry_hi[t][0])))
                if t in self.dheads:
                    self.dheads[t].append(z3.And(reach, cond, err[2], z3.Not(self.entry_hi[t][1])))
                return
            inc[t].append((z3.And(reach, cond) if cond is not True_ else reach, dict(mem), err, b))
        for i in f.blocks[b]:
            op = i.op
            if op == 'phi':
                wd = width(i.ty)
                if wd is None:
                    continue
                v = self.fresh(wd, 'phi')
                for a, lab in i.a:
                    for e in es:
                        if e[3] is not None and (lab == e[3] or (e[3] == f.entry and lab in (f.entry, f.entry_alias))):
                            self.s.add(z3.Implies(e[0], v == self.opnd(a, wd)))
                if b in loops:
                    v = self.fresh(wd, 'phi')
                self.val[i.d] = v
            elif op == 'alloca':
                v = self.fresh(64, 'a')
                self.s.add(v != 0)
                self.val[i.d] = v
            elif op == 'load':
                wd = width(i.ty)
                if wd is None:
                    continue
                a = i.a[0]
                if a.k == 'reg' and a.v in mem:
                    self.val[i.d] = mem[a.v]
                else:
                    c = self.path(a)
                    v = mem.get(c) if c else None
                    if v is None or z3.is_bool(v) != (wd == 1) or (wd != 1 and v.size() != wd):
                        v = self.fresh(wd, 'ld')
                        if c:
                            mem[c] = v
                    self.val[i.d] = v
            elif op == 'store':
                v, a = i.a
                if a.k == 'reg' and a.v in mem:
                    mem[a.v] = self.opnd(v, width(self.al[a.v]))
                elif self.esc and not (a.k == 'reg' and self.defs.get(a.v) is not None and self.defs[a.v].op == 'alloca'):
                    for n in self.esc:
                        mem[n] = self.fresh(width(self.al[n]), 'x')
                if not (a.k == 'reg' and a.v in mem):
                    for n in [n for n in mem if isinstance(n, tuple)]:
                        del mem[n]
                    c = self.path(a)
                    if c and width(v.ty):
                        mem[c] = self.opnd(v)
            elif op in ('call', 'invoke'):
                t = self.tg[id(i)]
                if t == ('pure',):
                    if n_mem(i):
                        for n in [n for n in mem if isinstance(n, tuple)]:
                            del mem[n]
                    if i.d and width(i.ty):
                        self.val[i.d] = self.fresh(width(i.ty), 'r')
                else:
                    for n in self.esc:
                        mem[n] = self.fresh(width(self.al[n]), 'x')
                    for n in [n for n in mem if isinstance(n, tuple)]:
                        del mem[n]
                    wd = width(i.ty)
                    r = self.fresh(wd, 'r') if wd else None
                    if i.d and wd:
                        self.val[i.d] = r
                    before = err
                    hi = self.hi(i, t, r, err[1])
                    if t is None:
                        err = (err[0], hi) + err[2:]
                    elif t[0] == 'st':
                        err = self.stream_step(t[1], r, err)
                    elif t[0] == 'log':
                        err = (True_, True_) + err[2:]
                    elif t[0] == 'ev':
                        e2 = [err[0]] + ([r] if 'T' in t[1] else []) + ([z3.Not(r)] if 'F' in t[1] else [])
                        err = (z3.Or(e2), hi) + err[2:]
                    else:
                        def kind(k):
                            return z3.And([self.K(x, k) for x in ks])
                        ks = t[2] if t[0] == 'algo' else t[1]
                        alts = [err[0]]
                        if t[0] == 'fn':
                            alts.append(kind('A'))
                            if wd == 1:
                                alts += [z3.And(kind('F'), z3.Not(r)), z3.And(kind('T'), r)]
                            elif i.ty.k == 'ptr':
                                alts.append(z3.And(kind('N'), r == 0))
                            elif wd == 32:
                                alts.append(z3.And(kind('X'), r != 0))
                                alts += [z3.And(kind('E%d' % j), r == j) for j in range(4)]
                        elif t[1] == 'all_of':
                            alts.append(z3.And(kind('F'), z3.Not(r)))
                        elif t[1] == 'none_of':
                            alts.append(z3.And(kind('T'), z3.Not(r)))
                        elif t[1] == 'any_of':
                            alts.append(z3.And(kind('T'), r))
                        e2 = self.fresh(1, 'e')
                        self.s.add(e2 == z3.Or(alts))
                        err = (e2, hi) + err[2:]
                    if op == 'invoke':
                        after, err2 = err, before
                        if self.w.streams and t not in (None, ('pure',)) and t[0] != 'st':        # what was done before an exception
                            err2 = (before[0], z3.Or(before[1], z3.Not(z3.And([self.K(x, 'Q') for x in self.may[id(i)] if isinstance(x, str) and x in self.w.fns] or [True_])))) + before[2:]
                        edge(i.x[1], True_)
                        err = err2
                        edge(i.x[2], self.fresh(1, 'uw'))
                        err = after
            elif op in ('jmp',):
                edge(i.a[0], True_)
            elif op == 'br':
                c = self.opnd(i.a[0], 1)
                edge(i.a[1], c)
                edge(i.a[2], z3.Not(c))
            elif op == 'switch':
                v = self.opnd(i.a[0])
                wd = width(i.ty)
                rest = []
                for cv, t in i.a[2]:
                    c = (v == (z3.BoolVal(bool(cv & 1)) if wd == 1 else z3.BitVecVal(cv, wd))) if wd else self.fresh(1, 'sw')
                    edge(t, c)
                    rest.append(z3.Not(c))
                edge(i.a[1], z3.And(rest) if rest else True_)
            elif op == 'ret':
                self.rets.append((reach, self.opnd(i.a[0]) if i.a and width(i.ty) else None, err))
            elif op == 'icmp':
                wd = width(i.ty)
                if wd is None:
                    self.val[i.d] = self.fresh(1, 'ic')
                    continue
                x, y = self.opnd(i.a[0], wd), self.opnd(i.a[1], wd)
                p = i.x
                if z3.is_bool(x) != z3.is_bool(y) or (not z3.is_bool(x) and x.size() != y.size()):
                    self.val[i.d] = self.fresh(1, 'ic')
                    continue
                if wd == 1 and p not in ('eq', 'ne'):
                    self.val[i.d] = self.fresh(1, 'ic')
                    continue
                self.val[i.d] = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                                 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[p]()
            elif op in ('zext', 'sext', 'trunc'):
                a = i.a[0]
                w1, w2 = width(a.ty), width(i.ty)
                if not w1 or not w2:
                    if w2:
                        self.val[i.d] = self.fresh(w2, 'cv')
                    continue
                v = self.opnd(a)
                if w1 == 1:
                    self.val[i.d] = z3.If(v, z3.BitVecVal(1 if op == 'zext' else -1, w2), z3.BitVecVal(0, w2))
                elif w2 == 1:
                    self.val[i.d] = z3.Extract(0, 0, v) == 1
                elif op == 'trunc':
                    self.val[i.d] = z3.Extract(w2 - 1, 0, v)
                else:
                    self.val[i.d] = z3.ZeroExt(w2 - w1, v) if op == 'zext' else z3.SignExt(w2 - w1, v)
            elif op in ('and', 'or', 'xor', 'add', 'sub') and width(i.ty):
                wd = width(i.ty)
                x, y = self.opnd(i.a[0], wd), self.opnd(i.a[1], wd)
                if wd == 1:
                    self.val[i.d] = z3.And(x, y) if op == 'and' else z3.Or(x, y) if op == 'or' else z3.Xor(x, y)
                else:
                    self.val[i.d] = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'add': lambda: x + y, 'sub': lambda: x - y}[op]()
            elif op == 'select':
                wd = width(i.ty)
                if wd:
                    self.val[i.d] = z3.If(self.opnd(i.a[0], 1), self.opnd(i.a[1], wd), self.opnd(i.a[2], wd))
            elif i.d and width(i.ty):
                self.val[i.d] = self.fresh(width(i.ty), 'o')
                if op == 'getelementptr':
                    pass

    def stream_step(self, what, r, err):
        """(.., hi, some of what was done to a file is not known to have worked, something is still in its buffer)"""
        e, hi, dirty, buf = err
        if what == 'open':
            return (e, z3.Or(hi, dirty), True_, False_)
        if what == 'write':
            return (e, hi, True_, True_)
        if what == 'flush':
            return (e, hi, dirty, False_)
        if what == 'fs':
            return (e, z3.Or(hi, dirty), z3.Not(r) if r is not None and z3.is_bool(r) else True_, False_)
        if what == 'ecbad':
            return (e, z3.Or(hi, z3.And(dirty, r)), z3.And(dirty, buf), buf)
        ok = r if what == 'good' else z3.Not(r)
        return (e, z3.Or(hi, z3.Not(ok)), z3.And(dirty, buf), buf)

    def hi(self, i, t, r, before):
        may = self.may[id(i)]
        if not may:
            return before
        if None in may or 'log' in may:
            return True_
        if t is not None and t[0] == 'st':
            return before
        if 'ev' in may:
            out = [z3.Not(r)] if 'D' not in t[1] else [r] if 'C' not in t[1] else []
            return z3.Or([before] + out) if 'C' in t[1] or 'D' in t[1] else True_
        every = lambda kd: z3.And([self.K(k, kd) for k in may])
        ok = [every('Q')]
        if t is not None and t[0] == 'fn' and r is not None:
            if z3.is_bool(r):
                ok += [z3.And(every('C'), r), z3.And(every('D'), z3.Not(r))]
            elif i.ty.k == 'ptr':
                ok += [z3.And(every('C'), r != 0), z3.And(every('D'), r == 0)]
            elif width(i.ty) == 32:
                ok += [z3.And(every('H%d' % j), r == j) for j in range(4)]
        elif t is not None and t[0] == 'algo' and len(may) == 1:
            if t[1] == 'all_of':
                ok += [z3.And(every('C'), r), z3.And(every('C'), every('D'))]
            elif t[1] == 'any_of':
                ok += [z3.And(every('D'), z3.Not(r)), z3.And(every('C'), every('D'))]
            else:
                ok += [z3.And(every('D'), r), z3.And(every('C'), every('D'))]
        return z3.Or(before, z3.Not(z3.Or(ok)))

    def goal(self, kind):
        """negated obligation"""
        out = []
        if kind[0] == 'I':
            return z3.Or(self.heads[kind[1:]]) if self.heads.get(kind[1:]) else False_
        if kind[0] == 'J':
            return z3.Or(self.dheads[kind[1:]]) if self.dheads.get(kind[1:]) else False_
        for reach, r, err in self.rets:
            if kind in QUIET:
                if kind == 'Q':
                    c = True_
                elif r is None:
                    return None
                elif kind[0] == 'H':
                    c = r == int(kind[1])
                else:
                    c = r if z3.is_bool(r) else r != 0
                    c = z3.Not(c) if kind == 'D' else c
                out.append(z3.And(reach, c, z3.Or(err[1], err[2])))
                continue
            err = err[0]
            if kind[0] in 'EX':
                out.append(z3.And(reach, r != 0 if kind == 'X' else r == int(kind[1]), z3.Not(err)))
                continue
            c = {'A': True_, 'F': None if r is None else (z3.Not(r) if z3.is_bool(r) else None), 'T': r if r is not None and z3.is_bool(r) else None,
                 'N': None if r is None or z3.is_bool(r) else r == 0}[kind]
            if c is None:
                return None
            out.append(z3.And(reach, c, z3.Not(err)))
        return z3.Or(out) if out else False_


def candidates(f):
    w = width(f.rty)
    if w == 1:
        return ['F', 'T', 'A', 'C', 'D', 'Q']
    if f.rty.k == 'ptr':
        return ['N', 'A', 'C', 'D', 'Q']
    if w == 32:
        return ['A', 'Q', 'X'] + ['%s%d' % (a, j) for a in 'HE' for j in range(4)]
    return ['A', 'Q']


def solve(w, keys, assume=(), skip=()):
    """greatest set of contracts that verify.  keys: functions under verification; assume: (key, kind) taken without proof.
    -> (spec: key -> set of kinds, funs, stats)"""
    consts = {}

    def K(k, kind):
        c = consts.get((k, kind))
        if c is None:
            c = consts[(k, kind)] = z3.Bool('K|%s|%s' % (kind, k))
        return c
    t0 = time.time()
    funs, unsupported = {}, {}
    for k in keys:
        try:
            funs[k] = Fun(w, k, K)
        except (LLError, Unsupp, KeyError, AssertionError) as e:
            unsupported[k] = repr(e)[:200]
    callers = {}
    for k, fu in funs.items():
        for c in fu.maycalls | fu.calls:
            callers.setdefault(c, set()).add(k)
    # functions that may report
    rel = set()
    todo = ['log', 'ev', None] + [k for k in unsupported] + [k for k in skip]
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in rel:
                rel.add(c)
                todo.append(c)
    used = set(rel)
    for k in rel:
        used |= funs[k].calls & set(funs)
    funs = {k: funs[k] for k in used}
    known = set(keys) - set(unsupported)
    t1 = time.time()
    spec = {k: set(candidates(fu.f)) for k, fu in funs.items()}
    for k, fu in funs.items():
        if k not in rel:
            spec[k] -= {'A'} | set(QUIET)
    for k, kind in assume:
        spec.setdefault(k, set()).add(kind)
    fixed = set(assume)
    # callees first
    order, seen = [], set()
    for r in sorted(funs):
        if r in seen:
            continue
        st = [(r, iter(sorted((funs[r].calls | funs[r].maycalls) & used)))]
        seen.add(r)
        while st:
            x, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    st.append((t, iter(sorted((funs[t].calls | funs[t].maycalls) & used))))
                    break
            else:
                order.append(x)
                st.pop()
    nq = 0
    verdict = {}
    work = dict.fromkeys(order)
    while work:
        k = next(iter(work))
        del work[k]
        fu = funs[k]
        gone = False
        try:
            if not fu.built:
                fu.build()
                fu.built = True
                spec[k] |= {'I' + h for h in fu.heads} | {'J' + h for h in fu.dheads}
        except (LLError, Unsupp, KeyError, AssertionError, z3.Z3Exception) as e:
            unsupported[k] = repr(e)[:200]
            spec[k] = set()
            for c in callers.get(k, ()):
                if c in funs:
                    work[c] = None
            continue
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 10000)
        s.add(fu.ass)
        for c in fu.calls | fu.maycalls:
            for kind in KINDS:
                v = consts.get((c, kind))
                if v is not None:
                    s.add(v if kind in spec.get(c, ()) or (kind in QUIET and c in known and c not in rel) else z3.Not(v))
        while True:
            drop = []
            s.push()
            for h in fu.heads:
                v = consts[(k, 'I' + h)]
                s.add(v if 'I' + h in spec[k] else z3.Not(v))
            for h in fu.dheads:
                v = consts[(k, 'J' + h)]
                s.add(v if 'J' + h in spec[k] else z3.Not(v))
            for kind in sorted(spec[k]):
                if (k, kind) in fixed:
                    continue
                e = fu.goal(kind)
                if e is None:
                    drop.append(kind)
                    continue
                nq += 1
                s.push()
                s.add(e)
                r = s.check()
                s.pop()
                verdict[(k, kind)] = r
                if r != z3.unsat:
                    drop.append(kind)
            s.pop()
            if not drop:
                break
            gone = True
            spec[k] -= set(drop)
            if not any(x[0] in 'IJ' for x in drop):
                break
        drop = gone
        if drop:
            for c in callers.get(k, ()):
                if c in funs:
                    work[c] = None
    return spec, funs, dict(queries=nq, build_s=round(t1 - t0, 2), solve_s=round(time.time() - t1, 2), unsupported=unsupported, verdict=verdict, rel=rel), consts


def roots(w, spec, funs, consts, rel, base):
    """functions of which a contract of `base` (key -> kinds) fails although those of all their callees are given: -> [(key, kind, lines of a failing path)]"""
    out = []
    for k in sorted(base):
        fu = funs.get(k)
        if fu is None or not fu.built:
            continue
        for kind in sorted(base[k]):
            if kind in spec.get(k, ()):
                continue
            s = z3.SolverFor('QF_BV')
            s.set('timeout', 10000)
            s.add(fu.ass)
            for h in fu.heads:
                s.add(consts[(k, 'I' + h)] if 'I' + h in spec[k] or kind in QUIET else z3.Not(consts[(k, 'I' + h)]))
            for h in fu.dheads:
                s.add(consts[(k, 'J' + h)] if 'J' + h in spec[k] else z3.Not(consts[(k, 'J' + h)]))
            for c in fu.calls | fu.maycalls:
                for kd in KINDS:
                    v = consts.get((c, kd))
                    if v is not None:
                        s.add(v if kd in spec.get(c, ()) or kd in base.get(c, ()) or (kd in QUIET and c not in rel) else z3.Not(v))
            g = fu.goal(kind)
            if g is None:
                continue
            if kind in QUIET:
                g = z3.Or([g] + [fu.goal('I' + h) for h in fu.heads])
            s.add(g)
            if s.check() == z3.unsat:
                continue
            m, lines = s.model() if s.check() == z3.sat else None, []
            if m is not None:
                for b in fu.order:
                    r = fu.reach.get(b)
                    if r is not None and z3.is_true(m.eval(r)):
                        for i in fu.f.blocks[b]:
                            l = fu.f.mod.lines_dbg.get(i.dbg) if i.dbg else None
                            if l and (not lines or lines[-1] != l):
                                lines.append(l)
            out.append((k, kind, lines))
    return out
