"""Contracts and their verification."""
import re
import time
import z3
from .engine import (Engine, Unsupported, Halt, NeedFork, State, Obj, Ptr, NULL, SV, VV, OV, Agg, UNDEF, FnPtr, And, Or, Not, Implies, simp, bv, bl,
                     conc, ObjS, StrS, slen, schr, strlit, mask, sgn, Obligation, AXIOMS, Exc, Ite)
from .llparse import INT, PTR, T
from . import stl
from .stl import get_str, set_str, get_vec, set_val, params, ntext, targs, clean, type_info, elem_class, PRIM, inst, split_args


class V:
    """typed view of an object in a given state"""

    def __init__(self, eng, st, p, cls, mod):
        self.eng, self.st, self.p, self.cls, self.mod = eng, st, p, cls, mod

    def at(self, path):
        L = self.eng.prog.layouts.get(self.cls)
        if L is None:
            raise Unsupported('no layout of %s' % self.cls)
        for off, (nm, ty) in L.f.items():
            if nm == path or nm.endswith('.' + path):
                return off, ty
        raise Unsupported('no member %s in %s' % (path, self.cls))

    def __call__(self, path):
        off, ty = self.at(path)
        return load_typed(self.eng, self.st, self.p.add(off), ty, self.mod)

    def ptr(self, path):
        return self.p.add(self.at(path)[0])


W64 = {k + n: w for k in ('', 'std::') for n, w in [('size_t', 64), ('uintmax_t', 64), ('intmax_t', 64)] + [('%sint%d_t' % (u, n), n) for u in ('', 'u') for n in (8, 16, 32, 64)]}
INTS = {'_Bool': 1, 'bool': 1}


def load_typed(eng, st, p, ty, mod):
    t = clean(ty)
    if t == 'std::string':
        return get_str(eng, st, p)
    if t.startswith('std::vector<'):
        return Seq(eng, st, get_vec(eng, st, p, targs(t, 'std::vector')[0], mod), targs(t, 'std::vector')[0], mod)
    for h in ('std::multimap', 'std::map'):
        if t.startswith(h + '<'):
            a = targs(t, h)
            nt = stl.node_type(a[0], a[1])
            return Seq(eng, st, get_vec(eng, st, p, nt, mod, 'map', a[0], h.endswith('multimap')), nt, mod)
    if t.endswith('*') or t.endswith('&') or t.startswith('std::unique_ptr<') or t.endswith('Ptr'):
        return eng.load(st, p, PTR, mod)
    if t in ('_Bool', 'bool'):
        return bl(eng.load(st, p, INT(1), mod))
    if t in ('double',):
        return eng.load(st, p, T('double'), mod)
    w = 8 * PRIM[t] if t in PRIM else W64.get(t, 32)
    return bv(eng.load(st, p, INT(w), mod), w)


class Seq:
    """view of a vector / map"""

    def __init__(self, eng, st, v, elemty, mod):
        self.eng, self.st, self.v, self.elemty, self.mod = eng, st, v, elemty, mod

    @property
    def n(self):
        return bv(self.v.n, 64)

    def ptr(self, i):
        return stl.idx_ptr(self.eng, self.st, self.v.store, i)

    def __getitem__(self, i):
        t = clean(self.elemty)
        p = self.ptr(i)
        if t.startswith('std::pair<'):
            a = targs(t, 'std::pair')
            cls = self.eng.class_of_text(clean(a[1]))
            if not clean(a[1]).startswith('std::unique_ptr') and cls in self.eng.prog.layouts:
                return (load_typed(self.eng, self.st, p, a[0], self.mod), lambda: V(self.eng, self.st, p.add(stl.pair_off2(self.eng, self.mod, a)), cls, self.mod))
            return (load_typed(self.eng, self.st, p, a[0], self.mod),
                    lambda: load_typed(self.eng, self.st, p.add(stl.pair_off2(self.eng, self.mod, a)), a[1], self.mod))
        if t in PRIM or t == 'std::string' or t.endswith('*') or t.startswith('std::unique_ptr'):
            return load_typed(self.eng, self.st, p, t, self.mod)
        return V(self.eng, self.st, p, t, self.mod)

    def inst(self, t):
        inst(self.st, self.v.store, t)


class Ctx:
    """what pre- and postconditions may talk about"""
    assuming = False        # the postcondition is being used at a call site (not proved)

    def __init__(self, eng, ct, st0, st1, args, result, mod, exc=None):
        self.eng, self.ct, self.st0, self.st1 = eng, ct, st0, st1
        self.args = args            # name -> value  ('this', 'ret', 0..n)
        self.result = result
        self.mod = mod
        self.exc = exc

    @property
    def throws(self):
        return self.exc is not None

    # views of *this before / after
    def cls(self):
        return self.ct.cls

    def _v(self, st, p, cls):
        return V(self.eng, st, p, cls, self.mod)

    @property
    def old(self):
        return self._v(self.st0, self.args['this'], self.ct.cls)

    @property
    def new(self):
        return self._v(self.st1, self.args['this'], self.ct.cls)

    def view(self, p, cls, post=False):
        return self._v(self.st1 if post else self.st0, p, cls)

    def arg(self, i):
        return self.args[i]

    def argbv(self, i, w):
        return bv(self.args[i], w)

    def str_arg(self, i):
        return get_str(self.eng, self.st0, self.args[i])

    def deref(self, i, ty, post=True):
        return load_typed(self.eng, self.st1 if post else self.st0, self.args[i], ty, self.mod)

    def ret_str(self):
        return get_str(self.eng, self.st1, self.args['sret'])

    def ret_view(self, cls):
        return self._v(self.st1, self.args['sret'], cls)

    @property
    def res(self):
        r = self.result
        return bl(r) if isinstance(r, bool) or (z3.is_expr(r) and z3.is_bool(r)) else r

    def err(self):
        """an error was reported during the call (or before)"""
        v = self.st1.g.get('gh:err')
        return False if v is None else v

    def err0(self):
        v = self.st0.g.get('gh:err')
        return False if v is None else v

    def ident(self, p, st=None):
        return self.eng.ident_of(st or self.st0, p)

    def ghost(self, k, post=True, default=None):
        return (self.st1 if post else self.st0).g.get(k, default)


class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=None, sig=None, inline=(), loops=None, pure=None, cls=None, result=None,
                 throws=(), trusted=False, note='', props=(), havoc=None, assume_entry=None, insts=None, budget=None, virtual=None, setup=None, apply_fn=None, label=None, witness=None, callable=True, weight=1, inserts=None, sort_at=None, pushes=None, merge=False):
        self.merge = merge                # join the states of the ways through the function where they meet
        self.name = name
        self.sig = sig
        self.requires_f = requires
        self.ensures_f = ensures
        self.modifies = modifies          # None: not checked / list of member paths of *this (or (argidx, None) for out parameters)
        self.inline_set = set(inline)
        self.loops = loops or {}
        self.pure = pure
        self.cls = cls if cls is not None else name.rsplit('::', 1)[0]
        self.result_f = result
        self.throws = throws
        self.trusted = trusted
        self.note = note
        self.props = set(props)
        self.insts = insts
        self.budget = budget
        self.setup = setup
        self.apply_fn = apply_fn
        self.label = label or name
        self.witness = witness
        self.callable = callable
        self.weight = weight
        self.inserts = inserts or {}
        self.pushes = pushes or {}     # vector member: f(eng, state after the insertion, call) -> obligations; may update ghosts
        self.sort_at = sort_at        # (eng, st) -> (positions before, f(permutation) -> positions after) used by std::sort

    # --- used by the engine while verifying
    def loop_spec(self, eng, st, fn, blk):
        base = eng.prog.base(fn.name)
        s = self.loops.get(base)
        if s is None:
            return 'auto'
        if callable(s):
            return s(eng, st, fn, blk)
        return s

    # --- use at a call site
    def bind(self, eng, fn_or_dem, args, f):
        return bind_args(eng, fn_or_dem, args, f)

    def apply(self, eng, st, args, ins, mod, name):
        if self.apply_fn is not None:
            return self.apply_fn(eng, st, args, ins, mod, name)
        dem = eng.prog.dem.get(name, name)
        has_sret = any('sret' in (a[1] or ()) if not isinstance(a[1], str) else 'sret' in a[1] for a in ins.a[:1]) if ins.a else False
        b = {}
        rest = list(args)
        if has_sret:
            b['sret'] = rest.pop(0)
        if self.is_member(eng, name, len(rest), dem):
            b['this'] = rest.pop(0)
        for i, a in enumerate(rest):
            b[i] = a
        if self.requires_f:
            cx = Ctx(eng, self, st, st, b, None, mod)
            for (nm, c) in self.requires_f(cx):
                eng.oblige(st, 'precondition of %s: %s' % (short(self.name), nm), c, 'pre', eng.loc())
        st0 = st.copy()
        outs = []
        # frame
        if self.modifies:
            for m in self.modifies:
                if isinstance(m, str):
                    off, ty = V(eng, st, b['this'], self.cls, mod).at(m)
                    havoc_typed(eng, st, b['this'].add(off), ty, mod)
                elif isinstance(m, tuple):
                    i, ty = m
                    havoc_typed(eng, st, b[i], ty, mod)
        # result
        rty = ins.ty
        res = None
        if self.pure is not None:
            res = self.pure_term(eng, st, b, rty, mod, [p for p in params(dem) if p != 'void'])
            if has_sret:
                res = None
        elif rty is not None and rty.k == 'int':
            res = eng.fresh('r_' + short(self.name), rty.n)
        elif rty is not None and rty.k == 'ptr':
            if self.result_f is None:
                raise Unsupported('pointer result of contract ' + self.name)
        if self.result_f is not None:
            r = self.result_f(eng, st, b, mod, Ctx(eng, self, st0, st, b, None, mod))
            if r is not None:
                res = r
        g0 = st.g.get('gh:err')
        if self.may_log():
            e1 = z3.FreshConst(z3.BoolSort(), 'err')
            if g0 is not None and g0 is not False:
                st.assume(Implies(bl(g0), e1))
            st.g['gh:err'] = e1
        if self.ensures_f:
            cx = Ctx(eng, self, st0, st, b, res, mod)
            cx.assuming = True
            for (nm, c) in self.ensures_f(cx):
                st.assume(bl(c) if not isinstance(c, bool) else c)
        if not eng.feasible(st):
            return []
        return [(st, 'ret', res)]

    log = False

    def may_log(self):
        return self.log

    def logs(self):
        self.log = True
        return self

    def pure_term(self, eng, st, b, rty, mod, ps=()):
        a = []
        for k, v in b.items():
            if k == 'sret':
                continue
            if isinstance(v, Ptr):
                if v.obj is None:
                    a.append(z3.Const('null!obj', ObjS))
                    continue
                # string reference?
                o = st.obj(v.obj)
                cc = o.cells.get((None, v.off)) if v.term is None else None
                pt = ps[k] if isinstance(k, int) and k < len(ps) else ''
                if (cc is not None and isinstance(cc[1], SV)) or ('basic_string' in pt and 'vector' not in pt and 'map' not in pt) or clean(pt) in ('std::string', 'std::string const&'):
                    a.append(get_str(eng, st, v).z())
                else:
                    a.append(eng.ident_of(st, v))
            elif isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
                a.append(bl(v))
            elif isinstance(v, int):
                a.append(z3.BitVecVal(v, 64))
            elif z3.is_bv(v):
                a.append(v)
            else:
                raise Unsupported('pure argument')
        name = self.pure if isinstance(self.pure, str) else short(self.name)
        if 'sret' in b:
            f = z3.Function('obs_%s' % name, *([x.sort() for x in a] + [StrS]))
            set_str(eng, st, b['sret'], SV(f(*a) if a else z3.Const('obs_' + name, StrS)))
            return None
        sort = z3.BoolSort() if rty.k == 'int' and rty.n == 1 else (z3.BitVecSort(rty.n) if rty.k == 'int' else None)
        if rty.k == 'double':
            sort = z3.Float64()
        if rty.k == 'ptr':
            f = z3.Function('obs_%s' % name, *([x.sort() for x in a] + [ObjS]))
            nf = z3.Function('obsnull_%s' % name, *([x.sort() for x in a] + [z3.BoolSort()]))
            cls, nonnull = self.ptr_result
            oid = eng.lazy_obj(st, f(*a) if a else z3.Const('obs_' + name, ObjS), cls, name)
            return Ptr(oid, 0, nul=False if nonnull else (nf(*a) if a else z3.Bool('obsnull_' + name)))
        if sort is None:
            raise Unsupported('pure result type')
        f = z3.Function('obs_%s' % name, *([x.sort() for x in a] + [sort]))
        return f(*a) if a else z3.Const('obs_' + name, sort)

    ptr_result = (None, False)

    def returns_ptr(self, cls, nonnull=False):
        self.ptr_result = (cls, nonnull)
        return self

    def is_member(self, eng, name, nargs, dem):
        ps = params(dem)
        ps = [p for p in ps if p != 'void']
        return nargs == len(ps) + 1


def short(n):
    return '::'.join(n.split('::')[-2:])


def havoc_typed(eng, st, p, ty, mod):
    t = clean(ty)
    if t == 'std::string':
        set_str(eng, st, p, SV(z3.FreshConst(StrS, 'hv')))
    elif t.startswith('std::vector<'):
        e = targs(t, 'std::vector')[0]
        n = eng.fresh('hvn', 64)
        st.assume(z3.ULT(n, 1 << 40))
        sid = stl.new_store(eng, st, 'havoc', e, mod, n, z3.FreshConst(ObjS, 'hvvec'))
        st.wobj(sid).ext = False
        set_val(eng, st, p, VV(sid, n))
    elif t.startswith(('std::map<', 'std::multimap<')):
        h = 'std::map' if t.startswith('std::map<') else 'std::multimap'
        a = targs(t, h)
        n = eng.fresh('hvn', 64)
        st.assume(z3.ULT(n, 1 << 40))
        sid = stl.new_store(eng, st, 'havoc', stl.node_type(a[0], a[1]), mod, n, z3.FreshConst(ObjS, 'hvmap'), 'map', a[0], h.endswith('multimap'))
        st.wobj(sid).ext = False
        set_val(eng, st, p, stl.MapV(sid, n))
    elif t in ('_Bool', 'bool'):
        eng.store(st, p, z3.FreshConst(z3.BoolSort(), 'hv'), INT(1), mod)
    elif t.endswith('*') or t.startswith('std::unique_ptr<'):
        cls = eng.class_of_text(stl.pointee(eng, t) or '')
        oid = eng.lazy_obj(st, z3.FreshConst(ObjS, 'hvp'), cls, 'havoc')
        eng.store(st, p, Ptr(oid, 0, nul=z3.FreshConst(z3.BoolSort(), 'hvnull')), PTR, mod)
    elif t == 'double':
        eng.store(st, p, z3.FreshConst(z3.Float64(), 'hv'), T('double'), mod)
    else:
        w = 8 * PRIM[t] if t in PRIM else W64.get(t, 32)
        eng.store(st, p, eng.fresh('hv', w), INT(w), mod)


# --------------------------------------------------------------- verification of one function
class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'       # ok / failed / unsupported
        self.reason = ''
        self.where = ''
        self.obl = []
        self.paths = 0
        self.t = 0.0
        self.inlined = set()
        self.lib = set()
        self.used = set()
        self.cex = []
        self.mangled = ''
        self.feas = 0

    def n(self, s):
        return sum(1 for o in self.obl if o.status == s)


def ev(m, t):
    """value of a term in a model, as a Python value"""
    if not z3.is_expr(t):
        return t
    v = m.eval(t, model_completion=True)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return str(v)


def setup_args(eng, ct, f, st):
    dem = eng.prog.dem.get(f.name, f.name)
    ps = [p for p in params(dem) if p != 'void']
    f.ensure()
    b = {}
    vals = []
    irp = list(f.params)
    i = 0
    if irp and 'sret' in str(irp[0][2]):
        oid = st.new(Obj('local', 'sret'))
        b['sret'] = Ptr(oid)
        vals.append(b['sret'])
        i = 1
    if len(irp) - i == len(ps) + 1:
        ident = z3.Const('this', ObjS)
        oid = eng.lazy_obj(st, ident, ct.cls if ct.cls in eng.prog.layouts else None, 'this')
        b['this'] = Ptr(oid)
        vals.append(b['this'])
        i += 1
    if len(irp) - i != len(ps):
        raise Unsupported('parameter mapping of %s' % dem)
    for k, pt in enumerate(ps):
        n, t, at = irp[i + k]
        if t.k == 'int':
            v = z3.Bool('arg%d' % k) if t.n == 1 else z3.BitVec('arg%d' % k, t.n)
            vals.append(v)
        elif t.k == 'double':
            v = z3.FP('arg%d' % k, z3.Float64())
            vals.append(v)
        elif t.k == 'ptr':
            txt = pt.strip()
            isref = txt.endswith('&')
            tgt = clean(re.sub(r'(&&|&|\*)$', '', txt).strip())
            ident = z3.Const('arg%d' % k, ObjS)
            cls = eng.class_of_text(tgt)
            if txt.endswith('*') and cls is None:
                cls = eng.opts.get('classmap', {}).get(tgt)
            oid = eng.lazy_obj(st, ident, cls, 'arg%d' % k)
            nul = False if (isref or not txt.endswith('*')) else z3.Bool('arg%d_null' % k)
            v = Ptr(oid, 0, nul=nul)
            vals.append(v)
        else:
            raise Unsupported('parameter type %r' % t)
        b[k] = v
    return b, vals


def verify(prog, contracts, ct, f, opts):
    eng = Engine(prog, contracts, opts)
    eng.cur = ct
    res = Result(ct.label)
    res.mangled = f.name
    t0 = time.time()
    eng.deadline = t0 + (ct.budget or opts.get('fn_budget', 120))
    st = State()
    try:
        b, vals = setup_args(eng, ct, f, st)
        if ct.setup:
            order = list(b)
            ct.setup(eng, st, b, f.mod)
            vals = [b[k] for k in order]
        if ct.requires_f:
            cx = Ctx(eng, ct, st, st, b, None, f.mod)
            for (nm, c) in ct.requires_f(cx):
                st.assume(bl(c) if not isinstance(c, bool) else c)
        # vacuity: the precondition must be satisfiable
        if not eng.feasible(st):
            raise Unsupported('precondition unsatisfiable')
        if ct.insts:
            ct.insts(Ctx(eng, ct, st, st, b, None, f.mod))
        st0 = st.copy()
        fails = []

        entry = Ctx(eng, ct, st0, st0, b, None, f.mod)

        def on_fail(e, s, o, ctx):
            w = None
            if ct.witness and o.model is not None:
                try:
                    w = ct.witness(entry, lambda t: ev(o.model, t))
                except Exception as ex:      # a witness is a convenience, never a verdict
                    w = {'error': '%s: %s' % (type(ex).__name__, ex)}
            fails.append({'obligation': o.name, 'loc': str(o.loc), 'witness': w, 'model': str(o.model)[:4000] if o.model is not None else None})
        eng.opts = dict(opts)
        eng.opts['on_fail'] = on_fail
        outs = eng.run_fn(st, f, vals)
        res.paths = len(outs)
        for (s2, kind, v) in outs:
            if kind == 'throw':
                ok = v.ty in ct.throws
                if not ok:
                    eng.oblige(s2, 'no exception escapes (%s)' % v.ty, False, 'throw')
                continue
            todo = [s2]
            while todo:
                s2 = todo.pop()
                cx = Ctx(eng, ct, st0, s2, b, v, f.mod)
                try:
                    ens = list(ct.ensures_f(cx)) if ct.ensures_f else []
                except NeedFork as nf:          # a choice of the postcondition's own reads
                    for alt in nf.alts:
                        if eng.feasible(s2, alt[0]):
                            s3 = s2.copy()
                            if alt[0] is not True:
                                s3.assume(alt[0])
                            if len(alt) > 2:
                                s3.g[alt[1]] = alt[2]
                            else:
                                alt[1](s3)
                            todo.append(s3)
                    continue
                for (nm, c) in ens:
                    eng.oblige(s2, nm, c, 'post', ctx=cx)
                frame_check(eng, ct, s2, b, st0)
        if not outs and not any(o.status == 'failed' for o in eng.obl):
            raise Unsupported('no path through the function returns')     # nothing was checked
        res.cex = fails
    except Unsupported as e:
        res.status = 'unsupported'
        res.reason = str(e)
        res.where = getattr(e, 'where', '')
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, z3.Z3Exception, ValueError, RecursionError) as e:
        if opts.get('debug'):
            raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.status = 'unsupported'
        res.reason = 'tool error: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:120], tb.filename.split('/')[-1], tb.lineno)
    res.obl = eng.obl
    res.t = time.time() - t0
    res.inlined = eng.inlined
    res.lib = eng.used_lib
    res.used = eng.used_contracts
    res.feas = eng.solver.n
    if res.status == 'ok':
        if any(o.status == 'failed' for o in res.obl):
            res.status = 'failed'
        elif any(o.status == 'unknown' for o in res.obl):
            res.status = 'unknown'
    return res


def frame_check(eng, ct, st, b, st0):
    if ct.modifies is None:
        return
    allowed = {}
    for m in ct.modifies:
        if isinstance(m, str) and m.endswith('*'):
            offs = sorted(eng.prog.layouts[ct.cls].f.items())
            for k, (off, (nm, ty)) in enumerate(offs):
                if nm.startswith(m[:-1]):       # with the padding up to the next member (parts are copied byte by byte)
                    end = offs[k + 1][0] if k + 1 < len(offs) else off + 8
                    allowed.setdefault(b['this'].obj, set()).update(b['this'].off + x for x in range(off, end))
        elif isinstance(m, str):
            off, ty = V(eng, st0, b['this'], ct.cls, None).at(m)
            allowed.setdefault(b['this'].obj, set()).add(off)
            c = st.obj(b['this'].obj).cells.get((None, b['this'].off + off))
            if c is not None and isinstance(c[1], VV):      # the elements of a listed container
                allowed.setdefault(c[1].store, set()).add('*')
        else:
            p = b[m[0]]
            allowed.setdefault(p.obj, set()).add('*')
    if 'sret' in b:
        allowed.setdefault(b['sret'].obj, set()).add('*')
    bad = []
    for oid, o in st.mem.items():
        if not o.ext or not o.written or oid not in st0.mem and o.ident is None:
            continue
        if o.kind == 'store' and ('copyof', oid) in st.g:
            continue
        al = allowed.get(oid, set())
        if '*' in al:
            continue
        for (ik, m) in o.written:
            if m in al and ik is None:
                continue
            # is the value really different from the initial one?
            c = o.cells.get((ik, m))
            c0 = st0.mem[oid].cells.get((ik, m)) if oid in st0.mem else None
            from .engine import same_val
            if c is not None and c0 is not None and same_val(c[1], c0[1]):
                continue
            bad.append('%s.%s' % (o.name, eng.pretty_member(o, m)))
    eng.oblige(st, 'frame: only the listed state is modified%s' % ('' if not bad else ' (also: %s)' % ', '.join(sorted(set(bad))[:4])), not bad, 'frame')
