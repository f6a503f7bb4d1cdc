"""Loops that fold the elements of a member container into a number (sums, maxima): the partial results are the values of a recursively defined function."""
import z3
from irv.contract import V
from irv.engine import Houdini, Ptr, ObjS, And, Or, Not, Implies, bl, bv, Forall, conc

B64 = z3.BitVecSort(64)
SAT = z3.BitVecVal(2**64 - 1, 64)
c64 = lambda x: z3.BitVecVal(x, 64)


def sat_add(a, b):
    return z3.If(z3.ULT(a + b, a), SAT, a + b)


def sat_mul(a, b):
    """the product when it is below the unlimited length, else the unlimited length (see product_lemmas)"""
    return z3.If(b == 0, c64(0), z3.If(z3.ULT(z3.UDiv(SAT - 1, b), a), SAT, a * b))


def product_lemmas():
    """over the integers: a <= M div b means a*b <= M; saturated products are monotone"""
    a, b, c, q, r, p = z3.Ints('pa pb pc pq pr pp')
    m = 2**64 - 2
    div = z3.And(a >= 0, b > 0, r >= 0, r < b, q >= 0, q * b + r == m)
    return [('a factor not above the quotient has a product in range', z3.Implies(z3.And(div, p >= 0, q == a + p), z3.And(a * b <= m))),
            ('a factor above the quotient has a product out of range', z3.Implies(z3.And(div, p >= 0, a == q + 1 + p), a * b > m)),
            ('products are monotone', z3.Implies(z3.And(a >= 0, c >= 0, p >= 0, b == a + p), a * c <= b * c))]


def mono_mul(a, b, c):
    return Implies(z3.ULE(a, b), z3.ULE(sat_mul(a, c), sat_mul(b, c)))


def umax(a, b):
    return z3.If(z3.ULT(a, b), b, a)


class Everywhere(dict):
    """the loop specification of whatever function contains the loop"""

    def __init__(self, f):
        dict.__init__(self)
        self.f = f

    def get(self, k, d=None):
        return self.f

    def __bool__(self):
        return True


class Fold:
    """F(0) = start; F(i+1) = step(view of element i, F(i)); monotone: F(i) <= F(i+1) (proved for an arbitrary i, hence F(i) <= F(n))"""

    def __init__(self, name, member, step, monotone=True, start=0):
        self.name, self.member, self.step, self.monotone, self.start = name, member, step, monotone, start

    def f(self, ident, i):
        return z3.Function('fold_' + self.name, ObjS, B64, B64)(ident, bv(i, 64))

    def seq(self, eng, st, this, cls, mod):
        return V(eng, st, this, cls, mod)(self.member)

    def ident(self, st, q):
        return st.obj(q.v.store).ident

    def elem(self, eng, st, q, i):
        e = q[i]
        return Ptr(e.obj, e.off)

    def define(self, eng, st, q, i):
        """the definition at an index (also the monotonicity, see lemma)"""
        m = self.ident(st, q)
        i = bv(i, 64)
        nxt = self.step(eng, st, self.elem(eng, st, q, i), self.f(m, i))
        return [self.f(m, i + 1) == nxt, self.f(m, c64(0)) == self.start]

    def below(self, st, q, i):
        """consequences of monotonicity"""
        m = self.ident(st, q)
        return [Implies(z3.ULE(i, q.n), z3.ULE(self.f(m, i), self.f(m, q.n))), Implies(z3.ULT(i, q.n), z3.ULE(self.f(m, i + 1), self.f(m, q.n)))] if self.monotone else []

    def lemma(self, eng, st, q, x):
        """F(i) <= F(i+1), by the definition, for any value of F(i)"""
        i = z3.FreshConst(B64, 'li')
        return [('a partial result of %s is not above the next one' % self.name, Implies(z3.ULT(i, q.n), z3.ULE(x, self.step(eng, st, self.elem(eng, st, q, i), x))))] if self.monotone else []


def empty(q):
    return isinstance(q.v.n, int) and q.v.n == 0


def loops(folds, cls, extra=None):
    """folds: the functions whose partial results variables of the loop may hold; extra(lp, q, i) -> facts"""
    def gen(lp):
        eng = lp.eng
        this = eng.this_of_run
        counters, cells = [], []
        for (oid, ck), nv in [(k, v) for k, v in lp.hav.items() if isinstance(k, tuple)]:
            old = lp.st.obj(oid).cells.get(ck)
            if old is None or (oid not in lp.st.mem):
                continue
            get = lambda s, oid=oid, ck=ck: s.obj(oid).cells[ck][1]
            if isinstance(nv, Ptr) and nv.term is not None and isinstance(old[1], Ptr):
                counters.append((nv.obj, lambda s, get=get: bv(eng.pindex(s, get(s)), 64), (oid, ck)))
            elif z3.is_bv(nv) and nv.size() == 64:
                counters.append((None, lambda s, get=get: bv(get(s), 64), (oid, ck)))
                cells.append(((oid, ck), lambda s, get=get: bv(get(s), 64)))
        facts, cs = [], []
        for fo in folds:
            q = fo.seq(eng, lp.sh, this, cls, lp.fn.mod)
            if empty(q):
                continue
            m = fo.ident(lp.sh, q)
            lp.st.assume(fo.f(m, c64(0)) == fo.start)
            for k, (store, at, own) in enumerate(counters):
                if store is not None and store != q.v.store:
                    continue
                t = at(lp.sh)
                q.inst(t)
                facts += fo.define(eng, lp.sh, q, t) + fo.below(lp.sh, q, t) + (extra(eng, lp.sh, fo, q, t) if extra else [])
                for (key, get) in cells:
                    if key == own:
                        continue
                    cs.append(((fo.name, k, key), 'the partial result is %s' % fo.name, lambda s, m=m, at=at, get=get, fo=fo: get(s) == fo.f(m, at(s))))
                if store is None:
                    cs.append((('bound', fo.name, k), 'the index stays within the members', lambda s, at=at, q=q: z3.ULE(at(s), q.n)))
                for fo2 in folds:
                    if fo2 is not fo:
                        cs.append((('order', fo.name, fo2.name, k), 'one partial result does not exceed the other',
                                   lambda s, m=m, at=at, fo=fo, fo2=fo2: z3.ULE(fo.f(m, at(s)), fo2.f(m, at(s)))))
        return facts, cs

    def spec(eng, st, fn, blk):
        sp = eng.__dict__.setdefault('_fold', {})
        if (fn.name, blk) not in sp:
            sp[(fn.name, blk)] = Houdini(gen)
        return sp[(fn.name, blk)]
    return Everywhere(spec)
