"""Joining two states of one block: a cell that differs becomes a choice guarded by the condition that tells the two
apart.  What cannot be joined makes the join fail (both states are then executed separately) when it may still be used,
else it becomes undefined (reading it later makes the function undecided, never proved)."""
import z3
from .engine import SV, VV, OV, MV, Ptr, FnPtr, Undef, UNDEF, State, REG, Forall, And, Not, bl, bv, simp, same_val


class NoMerge(Exception):
    pass


def operands(x, out):
    if isinstance(x, (list, tuple)):
        for y in x:
            operands(y, out)
    elif hasattr(x, 'k') and hasattr(x, 'v'):
        if x.k == 'reg':
            out.add(x.v)
        elif isinstance(x.v, (list, tuple)):
            operands(x.v, out)


def live(fn, blk):
    """registers mentioned from a block on (not counting what is reached again through a loop)"""
    c = fn.__dict__.setdefault('_live', {})
    if blk not in c:
        m = fn.__dict__.get('_ment')
        if m is None:
            m = {}
            for b, code in fn.blocks.items():
                s = set()
                for i in code:
                    operands(i.a, s)
                    operands(i.x, s)
                m[b] = s
            fn._ment = m
        loops = fn.loops()
        seen, todo, out = {blk}, [blk], set()
        while todo:
            b = todo.pop()
            out |= m[b]
            for s in fn.succs(b):
                if s not in seen and not (s in loops and b in loops[s]):
                    seen.add(s)
                    todo.append(s)
        c[blk] = out
    return c[blk]


def rpo(fn):
    r = fn.__dict__.get('_rpoidx')
    if r is None:
        order, seen = [], {fn.entry}
        loops = fn.loops()

        def inner(b, s):       # successors leaving a loop are visited first, so that they come last
            return sum(1 for l in loops.values() if b in l and s in l)
        st = [(fn.entry, iter(sorted(fn.succs(fn.entry), key=lambda s: inner(fn.entry, s))))]
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(sorted(fn.succs(s), key=lambda t: inner(s, t)))))
                    break
            else:
                order.append(x)
                st.pop()
        r = {b: i for i, b in enumerate(order[::-1])}
        fn._rpoidx = r
        pc = {}
        for b in r:
            for s in set(fn.succs(b)):
                pc[s] = pc.get(s, 0) + 1
        fn._npreds = pc
    return r


def is_join(fn, blk):
    rpo(fn)
    return fn._npreds.get(blk, 0) > 1


def selector(a, b):
    k = 0
    n = min(len(a.pc), len(b.pc))
    while k < n and a.pc[k] is b.pc[k]:
        k += 1
    pa, pb = a.pc[k:], b.pc[k:]
    m = None
    if pa and pb:
        x, y = pa[0], pb[0]
        if z3.is_not(y) and y.arg(0).eq(x):
            m, pa, pb = x, pa[1:], pb[1:]
        elif z3.is_not(x) and x.arg(0).eq(y):
            m, pa, pb = x, pa[1:], pb[1:]
    if m is None:
        m = z3.FreshConst(z3.BoolSort(), 'way')
    from .stl import FACTS
    ids = {p.get_id() for p in pb}
    both = [p for p in pa if p.get_id() in ids or p.get_id() in FACTS] + [p for p in pb if p.get_id() in FACTS and not any(p.get_id() == q.get_id() for q in pa)]
    bid = {p.get_id() for p in both}
    pa = [p for p in pa if p.get_id() not in bid]
    pb = [p for p in pb if p.get_id() not in bid]
    pc = a.pc[:k] + both
    if pa:
        pc.append(z3.Implies(m, z3.And(pa) if len(pa) > 1 else pa[0]))
    if pb:
        pc.append(z3.Implies(z3.Not(m), z3.And(pb) if len(pb) > 1 else pb[0]))
    return m, pc


def val(m, x, y):
    """the joined value, or None"""
    if same_val(x, y):
        return x
    if isinstance(x, Undef) or isinstance(y, Undef):
        return None
    if isinstance(x, bool) or isinstance(y, bool) or (z3.is_expr(x) and z3.is_bool(x)) or (z3.is_expr(y) and z3.is_bool(y)):
        ok = lambda v: isinstance(v, bool) or (isinstance(v, int) and v in (0, 1)) or (z3.is_expr(v) and z3.is_bool(v))
        if not (ok(x) and ok(y)):
            if all(isinstance(v, (bool, int)) or z3.is_bv(v) or z3.is_expr(v) and z3.is_bool(v) for v in (x, y)):
                w = next((v.size() for v in (x, y) if z3.is_bv(v)), 8)
                tobv = lambda v: v if z3.is_bv(v) else (z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if z3.is_expr(v) else z3.BitVecVal(int(v), w))
                return z3.If(m, tobv(x), tobv(y))
            return None
        return simp(z3.If(m, bl(bool(x) if isinstance(x, int) else x), bl(bool(y) if isinstance(y, int) else y)))
    if isinstance(x, (int,)) or z3.is_expr(x):
        if isinstance(x, int) and isinstance(y, int):
            return (x, y)          # the width is known to the caller
        if not (isinstance(y, int) or z3.is_expr(y)):
            return None
        e = x if z3.is_expr(x) else y
        if z3.is_bv(e):
            w = e.size()
            x2, y2 = bv(x, w), bv(y, w)
            if x2.size() != y2.size():
                return None
            return z3.If(m, x2, y2)
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
            return z3.If(m, x, y)
        return None
    if isinstance(x, SV) and isinstance(y, SV):
        return SV(z3.If(m, x.z(), y.z()))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        nul = lambda p: True if p.obj is None else p.nul
        if x.obj is None or y.obj is None:
            p = y if x.obj is None else x
            return Ptr(p.obj, p.off, p.term, p.stride, simp(z3.If(m, bl(nul(x)), bl(nul(y)))))
        if x.obj != y.obj:
            return None
        nn = x.nul if same_val(x.nul, y.nul) else simp(z3.If(m, bl(x.nul), bl(y.nul)))
        if x.key() == y.key():
            return Ptr(x.obj, x.off, x.term, x.stride, nn)
        s = x.stride or y.stride
        if s and (x.stride or s) == s and (y.stride or s) == s and (x.off - y.off) % s == 0:
            o = x.off % s
            t = lambda p: simp((bv(p.term, 64) if p.term is not None else z3.BitVecVal(0, 64)) + (p.off - o) // s)
            return Ptr(x.obj, o, z3.If(m, t(x), t(y)), s, nn)
        return None
    if isinstance(x, VV) and isinstance(y, VV) and x.store == y.store:
        return VV(x.store, z3.If(m, bv(x.n, 64), bv(y.n, 64)))
    if isinstance(x, OV) and isinstance(y, OV):
        return OV(None, x.size)
    return None


def cell(m, x, y):
    if x[0] != y[0]:
        return None
    v = val(m, x[1], y[1])
    if isinstance(v, tuple):
        w = 8 * x[0]
        v = z3.If(m, z3.BitVecVal(v[0], w), z3.BitVecVal(v[1], w))
    return None if v is None else (x[0], v)


def same_g(x, y):
    if x is y:
        return True
    try:
        if z3.is_expr(x) and z3.is_expr(y):
            return x.eq(y)
        if type(x) is type(y) and isinstance(x, (int, bool, str, float, tuple)) and not (isinstance(x, tuple) and any(z3.is_expr(e) for e in x)):
            return x == y
        return same_val(x, y)
    except Exception:
        return False


def initial(eng, st, i, ck, z, mod):
    """the initial value of a cell of an external object that this state has not looked at"""
    from .llparse import INT
    from . import stl
    ik, mm = ck
    v = z[1]
    try:
        if ik is not None:
            raise NoMerge('element written on one way only')
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            return (z[0], eng.lazy_load(st, i, None, mm, INT(1), mod))
        if isinstance(v, int) or z3.is_bv(v):
            return (z[0], eng.lazy_load(st, i, None, mm, INT(8 * z[0]), mod))
        if isinstance(v, SV):
            return (z[0], stl.get_str(eng, st, Ptr(i, mm)))
    except NoMerge:
        raise
    except Exception as e:
        raise NoMerge(str(e))
    raise NoMerge('cell of %r written on one way only' % (v,))


def merge(eng, fn, blk, A, RA, B, RB):
    """-> (state, regs); raises NoMerge"""
    m, pc = selector(A, B)
    lv = live(fn, blk)
    S = State()
    S.pc = pc
    # registers
    regs = {}
    local = {}
    for r in set(RA) | set(RB):
        if r in RA and r in RB:
            v = val(m, RA[r], RB[r]) if not r.startswith('!') else (RA[r] if RA[r] is RB[r] else None)
            if isinstance(v, tuple):
                v = None
            if v is None:
                if r in lv:
                    raise NoMerge('register ' + r)
                continue
            regs[r] = v
            if isinstance(v, Ptr) and v.obj is not None:
                local[v.obj] = r
    # ghosts
    for k in set(A.g) | set(B.g):
        ina, inb = k in A.g, k in B.g
        x, y = A.g.get(k), B.g.get(k)
        if ina and inb and same_g(x, y):
            S.g[k] = x
        elif isinstance(k, str):
            if ina and inb and not isinstance(x, tuple):
                v = val(m, x, y)
                if v is None or isinstance(v, tuple):
                    raise NoMerge('ghost ' + k)
                S.g[k] = v
            elif k.startswith('gh:') and isinstance(x if ina else y, bool) or z3.is_bool(x if ina else y):
                S.g[k] = simp(z3.If(m, bl(x if ina else False), bl(y if inb else False)))
            else:
                raise NoMerge('ghost ' + k)
        elif isinstance(k, tuple) and k[0] in ('len', 'owner', 'copyof', 'lazyobj', 'seqobj', 'chars', 'glob'):
            if ina and inb:
                if k[0] in ('lazyobj', 'seqobj', 'chars', 'glob'):
                    raise NoMerge('lazy object')
                if k[0] == 'len':
                    S.g[k] = z3.If(m, bv(x, 64), bv(y, 64))
                else:
                    raise NoMerge('ghost %r' % (k[0],))
            else:
                S.g[k] = x if ina else y
        elif isinstance(k, tuple) and k[0] == 'stale':
            S.g[k] = bool(x) or bool(y)
    # memory
    for i in set(A.mem) | set(B.mem):
        a, b = A.mem.get(i), B.mem.get(i)
        if a is b:
            S.mem[i] = a
            continue
        if a is None or b is None:
            o = a if b is None else b
            if not (i in REG and o.written):
                S.mem[i] = o
                continue
            if a is None:
                a = A.adopt(i)
            else:
                b = B.adopt(i)
        if a.arr is not b.arr or a.regions != b.regions or a.kind != b.kind or not (a.data is b.data or same_g(a.data, b.data)) or a.rew != b.rew:
            if not (a.arr is b.arr and a.regions == b.regions and a.kind == b.kind and same_g(a.data, b.data) and isinstance(a.rew, bool) and isinstance(b.rew, bool)):
                raise NoMerge('contents of ' + str(a.name))
        o = a.clone()
        o.owner = None
        if a.cls != b.cls:
            o.cls = REG[i].cls if i in REG else None
        o.rew = a.rew or b.rew
        o.written = a.written | b.written
        used = not (a.kind == 'local' and i in local and local[i] not in lv) and not (a.kind in ('heap',) and i not in REG and False)
        for ck in set(a.cells) | set(b.cells):
            x, y = a.cells.get(ck), b.cells.get(ck)
            if x is not None and y is not None:
                if x[0] == y[0] and same_val(x[1], y[1]):
                    continue
                if (a.ext or i in REG or a.ident is not None) and ck not in o.written:      # what was read of the initial contents is read again when needed
                    o.cells.pop(ck, None)
                    continue
                v = cell(m, x, y)
                if v is None:
                    if not used:
                        o.cells[ck] = (x[0], UNDEF)
                        continue
                    raise NoMerge('cell %r of %s: %r / %r' % (ck, a.name, x, y))
                o.cells[ck] = v
            elif a.ext or i in REG or a.ident is not None:
                wr = ck in (a.written if x is not None else b.written)
                if wr:
                    z, st = (x, B) if x is not None else (y, A)
                    w = initial(eng, st, i, ck, z, fn.mod)
                    v = cell(m, *((z, w) if x is not None else (w, z)))
                    if v is None:
                        raise NoMerge('cell %r of %s written on one way only' % (ck, a.name))
                    o.cells[ck] = v
                else:
                    o.cells[ck] = x if x is not None else y
            else:
                z = x if x is not None else y
                if used and a.kind != 'local':
                    raise NoMerge('cell %r of %s set on one way only' % (ck, a.name))
                o.cells[ck] = (z[0], UNDEF)
        S.mem[i] = o
    # universal facts
    ib = {id(f) for f in B.foralls}
    ia = {id(f) for f in A.foralls}
    S.foralls = [f for f in A.foralls if id(f) in ib]
    for st, other, c in ((A, ib, m), (B, ia, z3.Not(m))):
        for f in st.foralls:
            if id(f) not in other:
                S.foralls.append(Forall(f.lo, f.hi, f.var, z3.Implies(c, f.body), f.bound, f.store))
    S.inst = {k: list(v) for k, v in A.inst.items()}
    for k, v in B.inst.items():
        l = S.inst.setdefault(k, [])
        have = {t.get_id() for t in l if z3.is_expr(t)}
        l.extend(t for t in v if not (z3.is_expr(t) and t.get_id() in have))
    S.insted = set(A.insted) & set(B.insted)
    return S, regs
