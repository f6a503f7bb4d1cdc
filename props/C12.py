"""C12: messages are ordered by id and order, without clashes."""
import z3
from irv.contract import Contract, V, load_typed
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, VV, ObjS, Forall
from irv import stl, base as B
from irv.xml import schema, el
from props import intspec as S

N = 'commsdsl::parse::'
G = 'commsdsl::gen::'
SRCS = ['parse/ParseNamespaceImpl.cpp', 'parse/ParseMessage.cpp', 'parse/ParseMessageImpl.cpp', 'parse/ParseNamespace.cpp', 'parse/ParseSchemaImpl.cpp', 'parse/ParseProtocolImpl.cpp', 'gen/GenGenerator.cpp', 'gen/GenMessage.cpp', 'gen/GenSchema.cpp', 'gen/GenNamespace.cpp']
LAYOUT_SRCS = ['../include/commsdsl/parse/ParseMessage.h', 'gen/GenMessage.cpp', 'gen/GenSchema.cpp', 'gen/GenGenerator.cpp']
B64 = z3.BitVecSort(64)
ELEM = N + 'ParseMessage'
all_msgs = z3.Function('obs_all_messages', ObjS, ObjS)
own_msgs = z3.Function('obs_own_messages', ObjS, ObjS)
n_msgs = z3.Function('obs_all_messages_n', ObjS, B64)
I, J = z3.BitVec('one_message', 64), z3.BitVec('another_message', 64)      # two arbitrary positions


def elem(seq, i):
    return z3.Function('elem', ObjS, B64, ObjS)(seq, i)


def msg(cx, st, seq, i):
    """(id, order) of the message at a position of a list of messages"""
    eng = cx.eng
    oid = eng.lazy_obj(st, elem(seq, i), ELEM, 'msg')
    p = V(eng, st, Ptr(oid), ELEM, cx.mod)('m_pImpl')
    v = V(eng, st, Ptr(p.obj, p.off), N + 'ParseMessageImpl', cx.mod)
    return v('m_state.m_id'), v('m_state.m_order')


def valid_msgs(eng, st, sid, n, mod):
    """every message of the list is one of the protocol"""
    v = z3.FreshConst(B64, 'mv')
    p = V(eng, st, stl.idx_ptr(eng, st, sid, v), ELEM, mod)('m_pImpl')
    st.foralls.append(Forall(0, n, v, z3.Not(bl(p.nul)), [], sid))


def ap_all(eng, st, args, ins, mod, name):
    """the messages of the namespace and of those inside it, in some order"""
    seq = all_msgs(eng.ident_of(st, args[1]))
    n = n_msgs(seq)
    st.assume(z3.ULT(n, 1 << 40))
    sid = stl.new_store(eng, st, 'messages', ELEM, mod, n, seq)
    st.wobj(sid).ext = False
    valid_msgs(eng, st, sid, n, mod)
    stl.set_val(eng, st, args[0], VV(sid, n))
    return [(st, 'ret', None)]


def sort_two(eng, st):
    return [I, J], lambda p: [p(I), p(I) + 1, p(J), p(J) + 1]


def no_clash(cx):
    seq = all_msgs(cx.ident(cx.args['this']))
    a, b = msg(cx, cx.st1, seq, I), msg(cx, cx.st1, seq, J)
    n = n_msgs(seq)
    two = And(I != J, z3.ULT(I, n), z3.ULT(J, n))
    return [('two messages have different ids, or different orders where equal ids are allowed', Implies(And(cx.res, two), Or(a[0] != b[0], And(bl(cx.arg(0)), a[1] != b[1])))), S.rejected_reports(cx)]


K, O = z3.BitVec('one_child', 64), z3.BitVec('one_position', 64)     # an arbitrary position of the list of an arbitrary child
MAX = 1 << 40       # memory: fewer elements than this


def pre_sum(m, k):
    """number of messages of the element itself and in the lists of its first k children"""
    return z3.Function('spec_messages_before', ObjS, B64, B64)(m, k)


class Concat:
    """the lists of all children, one after the other"""

    def __init__(self, child, all_fn, n_fn):
        self.child, self.all, self.n = child, all_fn, n_fn

    def kid(self, eng, st, q, k):
        """identity of the k-th child of a container (map of pointers / vector of pointers)"""
        e = q[k]
        e = e[1]() if isinstance(e, tuple) else e
        return eng.ident_of(st, Ptr(e.obj, e.off))

    def facts(self, eng, st, q, ks):
        """definition of the number of messages before a child; every list is in memory at once"""
        m = st.obj(q.v.store).ident
        out = []
        for k in ks:
            n = self.n(self.all(self.kid(eng, st, q, k)))
            out += [pre_sum(m, k + 1) == pre_sum(m, k) + n, z3.ULT(n, MAX), z3.ULT(pre_sum(m, k), MAX), z3.ULT(pre_sum(m, k + 1), MAX)]
        return out

    def loop(self, eng, st, fn, blk):
        from irv.engine import Houdini
        sp = eng.__dict__.setdefault('_houdini', {})
        k = (fn.name, blk)
        if k not in sp:
            sp[k] = Houdini(self.gen, lambda lp: [K == lp.iters[0][4], K != lp.iters[0][4]] if lp.iters else [z3.BoolVal(True)])
        return sp[k]

    def gen(self, lp):
        eng = lp.eng
        if len(lp.iters) != 1:
            return [], []
        (oid, ck, store, i0, t) = lp.iters[0]
        ret = lp.regs[lp.fn.params[0][0]]
        key = (ret.obj, (None, ret.off))
        q = self.children(eng, lp.sh, lp.fn, lp.regs)
        if q is None or q.v.store != store:
            return [], []
        m = lp.sh.obj(store).ident
        seqK = self.all(self.kid(eng, lp.sh, q, K))
        nK = self.n(seqK)

        def idx(state):
            c = state.obj(oid).cells.get(ck)
            return bv(eng.pindex(state, c[1]), 64)

        def out(state):
            v = state.obj(key[0]).cells[key[1]][1]
            return v, state.obj(v.store).ident
        v0, own = out(lp.st)
        base = bv(v0.n, 64)
        inst = stl.inst
        for s in (lp.sh,):
            inst(s, out(s)[0].store, pre_sum(m, K) + O)
            inst(s, out(s)[0].store, O)
        cs = [('len', 'as many elements as the lists so far', lambda s: bv(out(s)[0].n, 64) == pre_sum(m, idx(s))),
              ('grow', 'no fewer elements than at first', lambda s: z3.ULE(base, pre_sum(m, idx(s)))),
              ('mono', 'an earlier list lies before', lambda s: Implies(z3.ULT(K, idx(s)), z3.ULE(pre_sum(m, K) + nK, pre_sum(m, idx(s))))),
              ('at', 'elements of an earlier list are at their place', lambda s: And(Implies(And(z3.ULT(K, idx(s)), z3.ULT(O, nK)), elem_at(s, out(s), pre_sum(m, K) + O) == elem(seqK, O))))]
        if own is not None:
            cs.append(('own', 'the own elements come first', lambda s: Implies(z3.ULT(O, base), elem_at(s, out(s), O) == elem(own, O))))
        v = z3.FreshConst(B64, 'vq')        # any position
        inst(lp.sh, out(lp.sh)[0].store, v)
        inst(lp.st, v0.store, v)
        ok = lambda s, i: self.valid(eng, s, out(s), i, lp.fn.mod)
        cs.append(('valid', 'every element exists', lambda s: Implies(z3.ULT(v, bv(out(s)[0].n, 64)), ok(s, v)),
                   lambda s: Forall(0, out(s)[0].n, v, ok(s, v), [], out(s)[0].store)))
        return self.facts(eng, lp.sh, q, [t, K]) + [z3.ULT(base, MAX)], cs

    def valid(self, eng, st, vi, i, mod):
        if vi[1] is None:
            return z3.BoolVal(True)
        oid = eng.lazy_obj(st, elem(vi[1], i), ELEM, 'msg')
        return z3.Not(bl(V(eng, st, Ptr(oid), ELEM, mod)('m_pImpl').nul))


def elem_at(st, vi, k):
    v, ident = vi
    if ident is None:
        return z3.FreshConst(ObjS, 'none')
    return elem(ident, k)


GMSG = G + 'GenMessage'


class OfNamespaces(Concat):
    def __init__(self, cls):
        Concat.__init__(self, 'ParseNamespaceImpl', all_msgs, n_msgs)
        self.cls = N + cls

    def children(self, eng, st, fn, regs):
        return V(eng, st, regs[fn.params[1][0]], self.cls, fn.mod)('m_namespaces')

    def own(self, cx):
        return own_n(own_msgs(cx.ident(cx.args['this']))) if self.cls.endswith('NamespaceImpl') else z3.BitVecVal(0, 64)

    def requires(self, cx):
        cx.eng.opts['concat_this'], cx.eng.opts['concat_mod'] = cx.args['this'], cx.mod
        q = cx.old('m_namespaces')
        v = z3.FreshConst(B64, 'ns')
        cx.st0.foralls.append(Forall(0, q.n, v, z3.Not(bl(q[v][1]().nul)), [], q.v.store))
        cx.st0.assume(And(z3.ULT(q.n, MAX), pre_sum(cx.st0.obj(q.v.store).ident, z3.BitVecVal(0, 64)) == self.own(cx)))
        return []

    def ensures(self, cx):
        eng, st = cx.eng, cx.st1
        q = cx.new('m_namespaces')
        for f in self.facts(eng, st, q, [K, q.n]):
            st.assume(f)
        m = st.obj(q.v.store).ident
        R = load_typed(eng, st, cx.args['sret'], 'std::vector<%s>' % ELEM, cx.mod)
        own = own_msgs(cx.ident(cx.args['this']))
        nown = self.own(cx)
        seq = self.all(self.kid(eng, st, q, K))
        ident = st.obj(R.v.store).ident
        if ident is None:       # an empty list
            return [('as many messages as in all namespaces', R.n == pre_sum(m, q.n))]
        at = lambda i: elem(ident, stl.sorted_at(ident, i))
        out = []
        if ident.decl().name().startswith('sorted'):
            a, b = msg(cx, st, ident, I), msg(cx, st, ident, J)
            out.append(('a later message has a greater id, or the same and no lesser order', Implies(And(z3.ULT(I, J), z3.ULT(J, R.n)), Or(z3.ULT(a[0], b[0]), And(a[0] == b[0], z3.ULE(a[1], b[1]))))))
        elif self.cls.endswith('SchemaImpl'):
            out.append(('the list is sorted', z3.BoolVal(False)))
        return out + [('as many messages as in all namespaces', R.n == pre_sum(m, q.n)),
                ('every message of an inner namespace is listed', Implies(And(z3.ULT(K, q.n), z3.ULT(O, self.n(seq))), at(pre_sum(m, K) + O) == elem(seq, O))),
                ('every message of the namespace itself is listed', Implies(z3.ULT(O, nown), at(O) == elem(own, O)))]


own_n = z3.Function('obs_own_messages_n', ObjS, B64)


def ap_own(eng, st, args, ins, mod, name):
    seq = own_msgs(eng.ident_of(st, args[1]))
    n = own_n(seq)
    st.assume(z3.ULT(n, MAX))
    sid = stl.new_store(eng, st, 'messages', ELEM, mod, n, seq)
    st.wobj(sid).ext = False
    valid_msgs(eng, st, sid, n, mod)
    stl.set_val(eng, st, args[0], VV(sid, n))
    return [(st, 'ret', None)]


def gen_pre(cx):
    q = load_typed(cx.eng, cx.st0, cx.arg(0), 'std::vector<%s const*>' % GMSG, cx.mod)
    v = z3.FreshConst(B64, 'gm')
    p = q[v]
    impl = V(cx.eng, cx.st0, Ptr(p.obj, p.off), GMSG, cx.mod)('m_impl')
    po = V(cx.eng, cx.st0, Ptr(impl.obj, impl.off), G + 'GenMessageImpl', cx.mod)('m_parseObj.m_pImpl')
    cx.st0.foralls.append(Forall(0, q.n, v, And(*[z3.Not(bl(x.nul)) for x in (p, impl, po)]), [], q.v.store))
    return []


def gen_key(cx, st, p):
    impl = V(cx.eng, st, Ptr(p.obj, p.off), GMSG, cx.mod)('m_impl')
    po = V(cx.eng, st, Ptr(impl.obj, impl.off), G + 'GenMessageImpl', cx.mod)('m_parseObj.m_pImpl')
    v = V(cx.eng, st, Ptr(po.obj, po.off), N + 'ParseMessageImpl', cx.mod)
    return v('m_state.m_id'), v('m_state.m_order')


def gen_sorted(cx):
    q0 = load_typed(cx.eng, cx.st0, cx.arg(0), 'std::vector<%s const*>' % GMSG, cx.mod)
    q = load_typed(cx.eng, cx.st1, cx.arg(0), 'std::vector<%s const*>' % GMSG, cx.mod)
    a, b = gen_key(cx, cx.st1, q[I]), gen_key(cx, cx.st1, q[J])
    i0, i1 = cx.st0.obj(q0.v.store).ident, cx.st1.obj(q.v.store).ident
    return [('the same number of messages', q.n == q0.n), ('the same messages', Implies(z3.ULT(O, q.n), elem(i1, stl.sorted_at(i1, O)) == elem(i0, O))),
            ('a later message has a greater id, or the same and no lesser order', Implies(And(z3.ULT(I, J), z3.ULT(J, q.n)), Or(z3.ULT(a[0], b[0]), And(a[0] == b[0], z3.ULE(a[1], b[1])))))]


def each_valid(cls, member, kid, pred, pair):
    """accepted exactly when every element of a container is"""
    def elem_ok(cx, q, k):
        e = q[k][1]() if pair else q[k]
        return pred(cx, cx.eng.ident_of(cx.st1, Ptr(e.obj, e.off)))

    def req(cx):
        q = cx.old(member)
        v = z3.FreshConst(B64, 'ch')
        e = q[v][1]() if pair else q[v]
        cx.st0.foralls.append(Forall(0, q.n, v, z3.Not(bl(e.nul)), [], q.v.store))
        q.inst(K)
        return []

    def ens(cx):
        q = cx.new(member)
        q.inst(K)
        b = z3.Function('spec_each_' + kid, ObjS, z3.BoolSort())(cx.ident(cx.args['this']))
        v = z3.FreshConst(B64, 'vv')
        cx.st1.foralls.append(Forall(0, q.n, v, Implies(b, elem_ok(cx, q, v)), [], q.v.store))      # b: every element is
        return [('accepted only when every one is', Implies(And(cx.res, z3.ULT(K, q.n)), elem_ok(cx, q, K))),
                ('rejected only when one is not', Implies(b, cx.res))]
    return Contract(N + cls + '::parseValidateAllMessages', requires=req, ensures=ens, modifies=[], callable=False)


def ap_doc(eng, st, args, ins, mod, name):
    """reading a document: anything may be added to the protocol"""
    st.g['gh:messages_checked'] = False
    B.may_report(eng, st, r := z3.FreshConst(z3.BoolSort(), 'doc_ok'))
    return [(st, 'ret', r)]


def ap_checked(eng, st, args, ins, mod, name):
    r = z3.FreshConst(z3.BoolSort(), 'messages_ok')
    B.may_report(eng, st, r)
    st.g['gh:messages_checked'] = r
    return [(st, 'ret', r)]


def validated(cx):
    return [('accepted only when the messages were checked after the last document was read', Implies(And(cx.res, Not(cx.old('m_validated'))), bl(cx.ghost('gh:messages_checked', True, False)))),
            ('the protocol is marked as accepted exactly when it is', bl(cx.new('m_validated')) == cx.res), S.rejected_reports(cx)]


gen_all = z3.Function('obs_gen_messages', ObjS, ObjS)
gen_n = z3.Function('obs_gen_messages_n', ObjS, B64)


def ap_gen(eng, st, args, ins, mod, name):
    seq = gen_all(eng.ident_of(st, args[1]))
    n = gen_n(seq)
    st.assume(z3.ULT(n, MAX))
    sid = stl.new_store(eng, st, 'messages', GMSG + ' const*', mod, n, seq)
    st.wobj(sid).ext = False
    stl.set_val(eng, st, args[0], VV(sid, n))
    return [(st, 'ret', None)]


class OfGenerated(OfNamespaces):
    """lists of the generator: vectors of pointers to messages, of the elements of a vector"""
    sep = True

    def __init__(self, cls, impl, member, child):
        Concat.__init__(self, child, gen_all, gen_n)
        self.cls, self.impl, self.member, self.kidcls = G + cls, G + impl, member, G + child

    def q(self, eng, st, this, mod):
        p = V(eng, st, this, self.cls, mod)('m_impl')
        return V(eng, st, Ptr(p.obj, p.off), self.impl, mod)(self.member)

    def children(self, eng, st, fn, regs):
        return self.q(eng, st, regs[fn.params[1][0]], fn.mod)

    def requires(self, cx):
        p = V(cx.eng, cx.st0, cx.args['this'], self.cls, cx.mod)('m_impl')
        cx.st0.assume(z3.Not(bl(p.nul)))
        q = self.q(cx.eng, cx.st0, cx.args['this'], cx.mod)
        v = z3.FreshConst(B64, 'ns')
        cx.st0.foralls.append(Forall(0, q.n, v, z3.Not(bl(q[v].nul)), [], q.v.store))
        cx.st0.assume(And(z3.ULT(q.n, MAX), pre_sum(cx.st0.obj(q.v.store).ident, z3.BitVecVal(0, 64)) == 0))
        return []

    def valid(self, eng, st, vi, i, mod):
        return z3.BoolVal(True)

    def ensures(self, cx):
        eng, st = cx.eng, cx.st1
        q = self.q(eng, st, cx.args['this'], cx.mod)
        for f in self.facts(eng, st, q, [K, q.n]):
            st.assume(f)
        m = st.obj(q.v.store).ident
        R = load_typed(eng, st, cx.args['sret'], 'std::vector<%s const*>' % GMSG, cx.mod)
        seq = self.all(self.kid(eng, st, q, K))
        ident = st.obj(R.v.store).ident
        out = [('as many messages as in all elements', R.n == pre_sum(m, q.n))]
        if ident is not None:
            out.append(('every message of an inner element is listed', Implies(And(z3.ULT(K, q.n), z3.ULT(O, self.n(seq))), elem(ident, pre_sum(m, K) + O) == elem(seq, O))))
        return out

    def contract(self, fn):
        return Contract(self.cls + '::' + fn, requires=self.requires, ensures=self.ensures, modifies=[], callable=False, loops={self.cls + '::' + fn: self.loop})


def contracts():
    ns, sch = OfNamespaces('ParseNamespaceImpl'), OfNamespaces('ParseSchemaImpl')
    def sort_at(eng, st):
        q = V(eng, st, eng.opts['concat_this'], N + 'ParseSchemaImpl', eng.opts['concat_mod'])('m_namespaces')
        m = st.obj(q.v.store).ident
        return [pre_sum(m, K) + O], lambda p: [I, J]
    return [
        Contract(N + 'ParseSchemaImpl::parseAllMessages', requires=sch.requires, ensures=sch.ensures, modifies=[], callable=False, loops={N + 'ParseSchemaImpl::parseAllMessages': sch.loop}, sort_at=sort_at),
        Contract(G + 'GenNamespace::genGetAllMessages', apply_fn=ap_gen, trusted=True, note='the list of a namespace (replay)'),
        Contract(G + 'GenSchema::genGetAllMessages', apply_fn=ap_gen, trusted=True, note='proved as the body contract'),
        Contract(N + 'ParseNamespaceImpl::parseValidateAllMessages', pure='namespace_messages_valid', trusted=True, note='proved as the contract of the body'),
        each_valid('ParseSchemaImpl', 'm_namespaces', 'namespace', lambda cx, i: z3.Function('obs_namespace_messages_valid', ObjS, z3.BoolSort(), z3.BoolSort())(i, bl(cx.old('m_nonUniqueMsgIdAllowed'))), True),
        Contract(N + 'ParseSchemaImpl::parseValidateAllMessages', pure='schema_messages_valid', trusted=True, note='proved as the contract of the body'),
        each_valid('ParseProtocolImpl', 'm_schemas', 'schema', lambda cx, i: z3.Function('obs_schema_messages_valid', ObjS, z3.BoolSort())(i), False),
        Contract(N + 'ParseProtocolImpl::parseValidateDoc', apply_fn=ap_doc, trusted=True, note='reads a document; a rejection is reported (C16)'),
        Contract(N + 'ParseProtocolImpl::parseValidateAllMessages', apply_fn=ap_checked, trusted=True, note='proved as the contract of the body'),
        Contract(N + 'ParseProtocolImpl::parseValidate', ensures=validated, modifies=['m_validated'], callable=False).logs(),
        OfGenerated('GenSchema', 'GenSchemaImpl', 'm_namespaces', 'GenNamespace').contract('genGetAllMessages'),
        OfGenerated('GenGenerator', 'GenGeneratorImpl', 'm_schemas', 'GenSchema').contract('genGetAllMessagesFromAllSchemas'),
        Contract(G + 'GenGenerator::genSortMessages', requires=gen_pre, ensures=gen_sorted, callable=False, sort_at=lambda eng, st: ([O], lambda p: [I, J])),
        Contract(N + 'ParseMessage::parseExternalRef', pure='extref', trusted=True, note='text of a log message'),
        Contract(N + 'ParseNamespaceImpl::parseMessagesList', apply_fn=ap_own, trusted=True, note='C12 replay'),
        Contract(N + 'ParseNamespaceImpl::parseAllMessagesList', apply_fn=ap_all, trusted=True, note='the list of an inner namespace, which the same contract of the body describes (recursion); its elements exist'),
        Contract(N + 'ParseNamespaceImpl::parseAllMessagesList', label=N + 'ParseNamespaceImpl::parseAllMessagesList(body)', requires=ns.requires, ensures=ns.ensures, modifies=[], callable=False, loops={N + 'ParseNamespaceImpl::parseAllMessagesList': ns.loop}),
        Contract(N + 'ParseNamespaceImpl::parseValidateAllMessages', ensures=no_clash, modifies=[], callable=False, sort_at=sort_two).logs(),
    ]


# ------------------------------------------------------------------ replay corpus
BOUND = 'up to 40 messages with ids (0 .. 2^64-1) and orders drawn from small and large pools, over up to 6 namespaces nested 3 deep (some defined in two parts), with and without non-unique ids'
U64 = 2**64 - 1


def build(rng):
    """[(namespace path, name, id, order or None)] and the schema text"""
    paths = [()]
    for _ in range(rng.randint(0, 5)):
        p = rng.choice(paths)
        if len(p) < 3:
            paths.append(p + ('n%d' % rng.randint(0, 3),))
    paths = sorted(set(paths))
    pool = [rng.choice([0, 1, 2, 3, 7, 255, 256, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, U64 - 1, U64, rng.randint(0, U64)]) for _ in range(rng.choice([1, 3, 8, 40]))]
    if rng.random() < 0.4:
        pool = [rng.choice([0, 2**32, 2**63]) + i for i in range(60)]
    msgs, uniq = [], rng.random() < 0.7
    used = set()
    for i in range(rng.choice([0, 1, 2, 3, 5, 12, 40])):
        p = rng.choice(paths)
        mid, order = rng.choice(pool), rng.choice([None, 0, 1, 2, 3, 10, 2**31, 2**32 - 1])
        key = (p[:1], mid) if rng.random() < 0.5 else (p[:1], mid, order or 0)
        if uniq and key in used:
            continue
        used.add(key)
        msgs.append((p, 'M%d_%d' % (rng.randint(0, 99), i), mid, order))
    return msgs


def text_of(msgs, allow, rng):
    tree = {}
    for (p, n, i, o) in msgs:
        t = tree
        for x in p:
            t = t.setdefault('ns', {}).setdefault(x, {})
        t.setdefault('m', []).append(el('message', dict(name=n, id=i, order=o)))

    def body(t):
        ms = list(t.get('m', ()))
        parts = list(ms)
        for k, s in t.get('ns', {}).items():
            b = body(s)
            if len(s.get('m', ())) > 1 and rng.random() < 0.3:
                s2 = dict(s, m=s['m'][1:])
                parts += [el('ns', dict(name=k), body(s2) or el('fields', {})), el('ns', dict(name=k), s['m'][0])]
            else:
                parts.append(el('ns', dict(name=k), b or el('fields', {})))
        rng.shuffle(parts)
        return ''.join(parts)
    kw = {} if allow is None else dict(nonUniqueMsgIdAllowed=allow)
    return schema('', body(tree), **kw)


def cases(rng, tier):
    fixed = [[((), 'a', 1, None), ((), 'b', 1, None)], [((), 'a', 1, 0), ((), 'b', 1, 1)], [((), 'a', 1, 5), ((), 'b', 1, 5)], [(('x',), 'a', 1, 1), (('x', 'y'), 'b', 1, 1)],
             [(('x',), 'a', 1, 2), (('x', 'y'), 'b', 1, 1)], [((), 'z', U64, 0), ((), 'y', 0, 7), ((), 'x', 2**63, 1)], [((), 'a', 2**32 + 5, None), ((), 'b', 5, None)],
             [((), 'a', 3, 2**32 - 1), ((), 'b', 3, 0)], []]
    for ms in fixed:
        for allow in (None, 'false', 'true'):
            yield ('S', text_of(ms, allow, rng), (ms, allow))
    for _ in range(400 if tier == 'quick' else 6000):
        ms = build(rng)
        allow = rng.choice([None, 'false', 'true', 'true'])
        yield ('S', text_of(ms, allow, rng), (ms, allow))


def judge(c, o):
    ms, allow = c[2]
    clash = None
    seen = {}
    for (p, n, i, od) in ms:
        for (m2, o2) in seen.setdefault((p[:1], i), []):
            if allow != 'true' or (od or 0) == o2:
                clash = (n, m2, i)
        seen[(p[:1], i)].append((n, od or 0))
    if clash:
        if o.get('valid'):
            return ('clash accepted', 'messages %s and %s of one namespace both have the id %d%s, and are accepted' % (clash[0], clash[1], clash[2], ' and the same order' if allow == 'true' else ''))
        return None if o.get('errs') else ('silent', 'a clash of messages is rejected without a reported error')
    if not o.get('valid'):
        return ('rejected', 'messages without a clash are rejected: %s' % (o.get('msgs') or [''])[0][-160:])
    got = o['schemas'][0]['all']
    exp = sorted((i, od or 0) for (p, n, i, od) in ms)
    if [(int(g[1]), int(g[2])) for g in got] != exp:
        return ('order', 'the ids and orders of the listed messages are %s' % [(int(g[1]), int(g[2])) for g in got][:12])
    if sorted(g[0].rsplit('.', 1)[-1] for g in got) != sorted(n for (p, n, i, od) in ms):
        return ('content', 'the listed messages are %s' % sorted(g[0] for g in got)[:12])
    byname = {'@S.' + '.'.join(p + (n,)): (i, od or 0) for (p, n, i, od) in ms}
    for g in got:
        if byname.get(g[0]) != (int(g[1]), int(g[2])):
            return ('content', 'message %s is listed with id %s and order %s' % tuple(g))
    return None


ASSUME = ['fewer than 2^40 messages and namespaces (they are in memory at once)', 'the elements of the containers of namespaces, schemas and generator objects exist (unique_ptr members set by make_unique)',
          'std::sort returns a permutation in which no later element is less than an earlier one, for the strict weak order the comparator is proved to be']
