"""C13: frames have one payload and well placed layers."""
import z3
from irv.contract import Contract, V, load_typed
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, ObjS, Forall
from irv import stl, base as B
from irv.stl import get_str
from irv.xml import schema, el
from props import intspec as S, C10

N = 'commsdsl::parse::'
L = N + 'ParseLayerImpl'
SRCS = ['parse/ParseFrameImpl.cpp', 'parse/ParseLayerImpl.cpp'] + ['parse/Parse%sLayerImpl.cpp' % k for k in ('Payload', 'Id', 'Size', 'Value', 'Custom', 'Checksum', 'Sync')]
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
CUSTOM, SYNC, SIZE, ID, VALUE, PAYLOAD, CHECKSUM = range(7)
VEC = 'std::vector<std::unique_ptr<%s> >' % L
MAX = 1 << 40
NPOS = z3.BitVecVal(2**64 - 1, 64)
kind_of = z3.Function('obs_layer_kind', ObjS, B32)
first_kind = z3.Function('spec_first_of_kind', ObjS, B32, B64)
first_name = z3.Function('spec_first_of_name', ObjS, z3.Const('x', B.StrS).sort(), B64)
place = z3.Function('spec_place', ObjS, ObjS, B64)
I, J = z3.BitVec('one_layer', 64), z3.BitVec('another_layer', 64)


def layers(cx, st, i=0):
    return load_typed(cx.eng, st, cx.arg(i), VEC, cx.mod)


def raw(p):
    return Ptr(p.obj, p.off)


def at(q, i):
    return raw(q[i])


def ident(q, i):
    return q.eng.ident_of(q.st, at(q, i))


def seq(q):
    return q.st.obj(q.v.store).ident


def kind(q, i):
    return kind_of(ident(q, i))


def name_at(eng, st, p, mod):
    return get_str(eng, st, raw(V(eng, st, p, L, mod)('m_name'))).z()


def name(q, i):
    return name_at(q.eng, q.st, at(q, i), q.mod)


def whole(eng, st, p, mod):
    """a complete layer: it exists, has a name and an XML node of a document"""
    return And(C10.alive(eng, st, p, L, mod), Not(bl(V(eng, st, raw(p), L, mod)('m_name').nul)))


def all_whole(q):
    v = z3.FreshConst(B64, 'ly')
    q.st.foralls.append(Forall(0, q.n, v, whole(q.eng, q.st, q[v], q.mod), [], q.v.store))


def pre(cx):
    q = layers(cx, cx.st0)
    all_whole(q)
    cx.st0.assume(z3.ULT(q.n, MAX))
    return []


def me(cx):
    """the position of *this among the layers"""
    return place(seq(layers(cx, cx.st0)), cx.ident(cx.args['this']))


def first(q, r, pred):
    """r is the first position with the property, or the maximal number"""
    ok = lambda i: pred(q, i)
    v = z3.FreshConst(B64, 'fp')
    q.st.foralls.append(Forall(0, z3.If(r == NPOS, q.n, r), v, Not(ok(v)), [], q.v.store))
    return Or(r == NPOS, And(z3.ULT(r, q.n), ok(r)))


def found(pred):
    def ens(cx):
        q = layers(cx, cx.st1)
        q.inst(I)
        r = bv(cx.res, 64)
        return [('the result is a position with the property, or none', Or(r == NPOS, And(z3.ULT(r, q.n), pred(cx, q, r)))),
                ('no earlier position has it', Implies(And(z3.ULT(I, q.n), z3.ULT(I, r)), Not(pred(cx, q, I))))]
    return ens


def is_kind(cx, q, i):
    return kind(q, i) == bv(cx.arg(1), 32)


def is_named(cx, q, i):
    return name(q, i) == cx.str_arg(1).z()


def is_me(cx, q, i):
    return ident(q, i) == cx.ident(cx.args['this'])


def ap_find(term, pred):
    def ap(eng, st, args, ins, mod, nm):
        q = load_typed(eng, st, args[1], VEC, mod)
        key, r = term(eng, st, q, args, mod)
        st.assume(first(q, r, lambda q, i: pred(q, i, key)))
        return [(st, 'ret', r)]
    return ap


def t_kind(eng, st, q, args, mod):
    k = bv(args[2], 32)
    return k, first_kind(seq(q), k)


def t_name(eng, st, q, args, mod):
    k = get_str(eng, st, args[2]).z()
    return k, first_name(seq(q), k)


def t_me(eng, st, q, args, mod):
    k = eng.ident_of(st, args[0])
    return k, place(seq(q), k)


def verify_pre(cx, payload=True):
    pre(cx)
    q = layers(cx, cx.st0)
    i = me(cx)
    p = first_kind(seq(q), z3.BitVecVal(PAYLOAD, 32))
    out = [('the layer is one of the frame', And(z3.ULT(i, q.n), ident(q, i) == cx.ident(cx.args['this'])))]
    if payload:
        out += [('the frame has a payload', And(z3.ULT(p, q.n), kind(q, p) == PAYLOAD))]
    return B.node_ok_of(cx, L) + out


def single_bool(cx, st, q):
    """b: no other layer is of the kind of this one"""
    b = z3.Function('spec_single', ObjS, ObjS, z3.BoolSort())(seq(q), cx.ident(cx.args['this']))
    v = z3.FreshConst(B64, 'sv')
    ok = lambda i: Or(is_me(cx, q, i), kind(q, i) != kind_of(cx.ident(cx.args['this'])))
    st.foralls.append(Forall(0, q.n, v, Implies(b, ok(v)), [], q.v.store))
    return b, ok


def single(cx):
    q = layers(cx, cx.st1)
    q.inst(I)
    b, ok = single_bool(cx, cx.st1, q)
    if cx.assuming:
        cx.st1.assume(cx.res == b)
        return [S.rejected_reports(cx)]
    return [('accepted only when no other layer is of this kind', Implies(And(cx.res, z3.ULT(I, q.n)), ok(I))), ('rejected only when another layer is', Implies(b, cx.res)), S.rejected_reports(cx)]


SYNC_CLS, CKS_CLS, CUS_CLS = N + 'ParseSyncLayerImpl', N + 'ParseChecksumLayerImpl', N + 'ParseCustomLayerImpl'
EMPTY = z3.Const('no_text', B.StrS)


def text_of(eng, st, p, cls, member, mod):
    """text a member of a layer points to"""
    return get_str(eng, st, raw(V(eng, st, raw(p), cls, mod)(member))).z()


def from_of(q, i):
    """the layer a (suffix) layer starts from"""
    k = kind(q, i)
    return z3.If(k == SYNC, text_of(q.eng, q.st, at(q, i), SYNC_CLS, 'm_from', q.mod), text_of(q.eng, q.st, at(q, i), CKS_CLS, 'm_from', q.mod))


def suffix_ok(q, m, f):
    """the layer at m, when it starts from somewhere, does not start before f"""
    t = from_of(q, m)
    return Implies(And(Or(kind(q, m) == SYNC, kind(q, m) == CHECKSUM), B.slen(t) != 0), z3.UGE(first_name(seq(q), t), f))


def with_from(q, cx):
    """the layers of a kind with a start have one (perhaps empty)"""
    v = z3.FreshConst(B64, 'wf')
    def has(cls):
        return Not(bl(V(q.eng, q.st, at(q, v), cls, q.mod)('m_from').nul))
    q.st.foralls.append(Forall(0, q.n, v, And(Implies(kind(q, v) == SYNC, has(SYNC_CLS)), Implies(kind(q, v) == CHECKSUM, has(CKS_CLS))), [], q.v.store))


def order_bool(q, p, t, f):
    b = z3.Function('spec_suffix_order', ObjS, B64, B64, B64, z3.BoolSort())(seq(q), p, t, f)
    v = z3.FreshConst(B64, 'ov')
    q.st.foralls.append(Forall(p + 1, t, v, Implies(b, suffix_ok(q, v, f)), [], q.v.store))
    return b


def order_pre(cx):
    pre(cx)
    q = layers(cx, cx.st0)
    with_from(q, cx)
    p, t = cx.argbv(1, 64), cx.argbv(2, 64)
    q.inst(t)
    return B.node_ok(cx) + [('the payload has a position', z3.ULT(p, q.n)), ('the layer has a position', z3.ULT(t, q.n)), ('this layer can have a start', Or(kind(q, t) == SYNC, kind(q, t) == CHECKSUM))]


def order(cx):
    q = layers(cx, cx.st1)
    p, t, f = (cx.argbv(i, 64) for i in (1, 2, 3))
    q.inst(I)
    b = order_bool(q, p, t, f)
    if cx.assuming:
        cx.st1.assume(cx.res == b)
        return [S.rejected_reports(cx)]
    return [('accepted only when no layer between the payload and this one starts before the start of this one', Implies(And(cx.res, z3.ULT(p, I), z3.ULT(I, t)), suffix_ok(q, I, f))),
            ('rejected only when one does', Implies(b, cx.res)), S.rejected_reports(cx)]


def order_loop(eng, st, fn, blk):
    from irv.engine import Houdini
    sp = eng.__dict__.setdefault('_houdini', {})
    k = (fn.name, blk)
    if k not in sp:
        def gen(lp):
            cs = []
            q = load_typed(eng, lp.sh, lp.regs_arg(1), VEC, fn.mod)
            q0 = load_typed(eng, lp.st, lp.regs_arg(1), VEC, fn.mod)
            p, f = bv(lp.regs_arg(2), 64), bv(lp.regs_arg(4), 64)
            for x in (q, q0):
                x.inst(I)
            for key, v in lp.hav.items():
                if isinstance(key, tuple) and z3.is_bv(v) and v.size() == 64:
                    q.inst(v)
                    def at(state, key=key):
                        c = state.obj(key[0]).cells.get(key[1]) if key[0] in state.mem else None
                        return None if c is None else bv(c[1], 64)
                    cs.append((key, 'no layer so far starts before', lambda state, at=at: z3.BoolVal(False) if at(state) is None else Implies(And(z3.ULT(p, I), z3.ULT(I, at(state)), z3.ULT(I, q.n)), suffix_ok(q, I, f))))
                    cs.append(((key, 'lo'), 'position after the payload', lambda state, at=at: z3.BoolVal(False) if at(state) is None else z3.UGT(at(state), p)))
            return [], cs
        sp[k] = Houdini(gen)
    return sp[k]


def payload_at(q):
    return first_kind(seq(q), z3.BitVecVal(PAYLOAD, 32))


def before_payload(cx):
    q = layers(cx, cx.st1)
    return [('accepted exactly before the payload', cx.res == z3.ULT(me(cx), payload_at(q))), S.rejected_reports(cx)]


def payload_layer(cx):
    q = layers(cx, cx.st1)
    b, ok = single_bool(cx, cx.st1, q)
    return [('accepted exactly when no other layer is of this kind', cx.res == b)]


def single_before(cx):
    q = layers(cx, cx.st1)
    b, ok = single_bool(cx, cx.st1, q)
    return [('accepted exactly before the payload when no other layer is of this kind', cx.res == And(b, z3.ULT(me(cx), payload_at(q)))), S.rejected_reports(cx)]


def start_of(cx, q, t):
    """position of the layer called t, which must be an earlier one than this"""
    r = first_name(seq(q), t)
    return r, And(z3.ULT(r, q.n), z3.ULT(r, me(cx)))


def checksum_pre(k, members):
    def f(cx):
        out = verify_pre(cx)
        q = layers(cx, cx.st0)
        with_from(q, cx)
        return out + [('the texts exist', And(*[Not(bl(cx.old(m).nul)) for m in members])), ('the kind of the class', kind_of(cx.ident(cx.args['this'])) == k)]
    return f


def same_payload(cx, q):
    i = payload_at(q)
    return And(z3.ULT(i, q.n), kind(q, i) == PAYLOAD)


def ends(cx, f, u, suffix):
    """accepted exactly when at least one end is named, each by a layer of the frame on the right side"""
    q = layers(cx, cx.st1)
    fi, ui = first_name(seq(q), f), first_name(seq(q), u)
    hf, hu = B.slen(f) != 0, B.slen(u) != 0
    ok = And(Or(hf, hu), Implies(hf, z3.ULT(fi, me(cx))), Implies(hu, And(z3.ULT(me(cx), ui), z3.ULT(ui, q.n))))
    if suffix:
        ok = And(ok, Implies(hf, order_bool(q, payload_at(q), me(cx), fi)))
    return ok


def checksum(cx):
    g = lambda m: get_str(cx.eng, cx.st1, raw(cx.old(m))).z()
    return [('accepted exactly when its ends are an earlier and a later layer, at least one of them given, and no suffix layer before it starts earlier', cx.res == ends(cx, g('m_from'), g('m_until'), True)), S.rejected_reports(cx)]


def custom(cx):
    ok = Implies(cx.old('m_sematicLayerType') == CHECKSUM, ends(cx, cx.old('m_checksumFromLayer').z(), cx.old('m_checksumUntilLayer').z(), False))
    return [('a custom checksum is accepted exactly when its ends are an earlier and a later layer, at least one of them given', cx.res == ok), S.rejected_reports(cx)]


dsl = z3.Function('obs_sync_suffix', ObjS, z3.BoolSort())


def sync(cx):
    q = layers(cx, cx.st1)
    f = get_str(cx.eng, cx.st1, raw(cx.old('m_from'))).z()
    fi = first_name(seq(q), f)
    hf = B.slen(f) != 0
    after = z3.ULT(payload_at(q), me(cx))
    sup = dsl(cx.ident(V(cx.eng, cx.st0, cx.args['this'], L, cx.mod)('m_protocol')))
    ok = If3(after, And(Implies(bl(cx.old('m_seekField')), hf), Implies(hf, And(z3.ULT(fi, q.n), z3.ULE(fi, payload_at(q)), order_bool(q, payload_at(q), me(cx), fi)))), Not(hf))
    return [('a start is given only after the payload, then it is a layer before it and no suffix layer before this one starts earlier', Implies(sup, cx.res == ok)),
            ('without suffix layers in the language version nothing is checked', Implies(Not(sup), cx.res)), S.rejected_reports(cx),
            ('whether it follows the payload', Implies(And(sup, cx.res), bl(cx.new('m_afterPayload')) == after))]


def If3(c, a, b):
    return And(Implies(c, a), Implies(Not(c), b))


F = N + 'ParseFrameImpl'
layer_ok = z3.Function('obs_layer_verified', ObjS, ObjS, z3.BoolSort())
P = z3.BitVec('payload_position', 64)


def ap_verify(eng, st, args, ins, mod, nm):
    """a layer among the layers: accepted or rejected with a report"""
    q = load_typed(eng, st, args[1], VEC, mod)
    this = eng.ident_of(st, args[0])
    i, p = place(seq(q), this), payload_at(q)
    v = z3.FreshConst(B64, 'lv')
    eng.oblige(st, 'precondition of parseVerifyImpl: the layer exists', whole(eng, st, args[0], mod), 'pre', eng.loc())
    eng.oblige(st, 'precondition of parseVerifyImpl: every layer is complete', Implies(z3.ULT(J, q.n), whole(eng, st, at(q, J), mod)), 'pre', eng.loc())
    eng.oblige(st, 'precondition of parseVerifyImpl: the frame has a payload', And(z3.ULT(st.g['gh:payload'], q.n), kind(q, st.g['gh:payload']) == PAYLOAD), 'pre', eng.loc())
    r = layer_ok(this, seq(q))
    B.may_report(eng, st, r)
    return [(st, 'ret', r)]


def ap_parse(eng, st, args, ins, mod, nm):
    """reads the layer: any properties, the same node, a valid name; a rejection is reported"""
    from irv.llparse import PTR
    p = args[0]
    o = st.wobj(p.obj)
    off = V(eng, st, p, L, mod).at('m_node')[0]
    node = eng.load(st, p.add(off), PTR, mod)
    o.cells, o.ident, o.kind, o.cls, o.written, o.ext = {}, z3.FreshConst(ObjS, 'parsed'), 'lazy', L, frozenset(), False
    eng.store(st, p.add(off), node, PTR, mod)
    st.assume(Not(bl(V(eng, st, p, L, mod)('m_name').nul)))
    r = z3.FreshConst(z3.BoolSort(), 'parsed')
    B.may_report(eng, st, r)
    return [(st, 'ret', r)]


def ap_create(eng, st, args, ins, mod, nm):
    from irv.llparse import PTR
    oid = eng.lazy_obj(st, z3.FreshConst(ObjS, 'newlayer'), L, 'newlayer')
    st.wobj(oid).ext = False
    p = Ptr(oid)
    eng.store(st, p.add(V(eng, st, p, L, mod).at('m_node')[0]), args[2], PTR, mod)
    eng.store(st, args[0], Ptr(oid), PTR, mod)
    return [(st, 'ret', None)]


def ap_names(eng, st, args, ins, mod, nm):
    """a list of texts"""
    n = z3.FreshConst(B64, 'names_n')
    st.assume(z3.ULT(n, MAX))
    sid = stl.new_store(eng, st, 'names', 'std::string', mod, n, z3.FreshConst(ObjS, 'names'))
    stl.set_val(eng, st, args[0], stl.VV(sid, n))
    return [(st, 'ret', None)]


def ap_children(eng, st, args, ins, mod, nm):
    r = C10.ap_children(eng, st, args, ins, mod, nm)
    q = load_typed(eng, st, args[0], 'std::vector<_xmlNode*>', mod)
    st.g['lists'] = st.g.get('lists', ()) + ((q.v.store, q.n),)
    return r


def pushed(eng, st, c):
    """ghost: the position of the last payload"""
    q = load_typed(eng, st, c.args[0], VEC, c.mod)
    st.g['gh:payload'] = z3.If(kind(q, q.n - 1) == PAYLOAD, q.n - 1, bv(st.g['gh:payload'], 64))
    return []


def read_loop(eng, st, fn, blk):
    from irv.engine import Houdini
    sp = eng.__dict__.setdefault('_houdini', {})
    k = (fn.name, blk)
    if k not in sp:
        def gen(lp):
            this = lp.regs_arg(0)
            Q = lambda s: V(eng, s, this, F, fn.mod)('m_layers')
            if len(lp.iters) != 1 or not any(isinstance(k, tuple) and k[0] == this.obj for k in lp.hav):
                return [], []
            (oid, ck, store, i0, t) = lp.iters[0]

            def idx(s):
                c = s.obj(oid).cells.get(ck)
                return bv(eng.pindex(s, c[1]), 64)
            ty = lambda s, i: eng.ident_of(s, raw(eng.load(s, stl.idx_ptr(eng, s, store, i), __import__('irv.llparse', fromlist=['PTR']).PTR, fn.mod)))
            node = lambda s, q, i: eng.ident_of(s, raw(V(eng, s, at(q, i), L, fn.mod)('m_node')))
            v = z3.FreshConst(B64, 'vl')
            for s in (lp.sh, lp.st):
                q = Q(s)
                for i in (I, J, v):
                    q.inst(i)
            cs = [('len', 'as many layers as nodes so far', lambda s: Q(s).n == idx(s)),
                  ('node', 'the layers are those of the nodes in their order', lambda s: Implies(z3.ULT(I, Q(s).n), node(s, Q(s), I) == ty(s, I))),
                  ('names', 'two layers have different names', lambda s: Implies(And(z3.ULT(I, J), z3.ULT(J, Q(s).n)), name(Q(s), I) != name(Q(s), J))),
                  ('whole', 'every layer is complete', lambda s: Implies(z3.ULT(v, Q(s).n), whole(eng, s, Q(s)[v], fn.mod)),
                   lambda s: Forall(0, Q(s).n, v, whole(eng, s, Q(s)[v], fn.mod), [], Q(s).v.store))]
            for key, x in lp.hav.items():
                if isinstance(key, tuple) and (isinstance(x, bool) or z3.is_expr(x) and (z3.is_bool(x) or z3.is_bv(x) and x.size() <= 8)):
                    def flag(s, key=key):
                        c = s.obj(key[0]).cells.get(key[1]) if key[0] in s.mem else None
                        g = bv(s.g['gh:payload'], 64)
                        return z3.BoolVal(False) if c is None else Implies(bl(c[1]) if not z3.is_bv(c[1]) else c[1] != 0, And(z3.ULT(g, Q(s).n), kind(Q(s), g) == PAYLOAD))
                    cs.append((key, 'the payload was recorded', flag))
            return [], cs
        sp[k] = Houdini(gen)
    return sp[k]


def frame_pre(cx):
    cx.st0.g['gh:payload'] = z3.BitVecVal(0, 64)
    return B.node_ok(cx) + [('no layers yet', cx.old('m_layers').n == 0), ('the frame has a name', Not(bl(cx.old('m_name').nul)))]


def node_of(q, i):
    return q.eng.ident_of(q.st, raw(V(q.eng, q.st, at(q, i), L, q.mod)('m_node')))


def kid(cx, sid, i):
    from irv.llparse import PTR
    return cx.eng.ident_of(cx.st1, raw(cx.eng.load(cx.st1, stl.idx_ptr(cx.eng, cx.st1, sid, i), PTR, cx.mod)))


def frame(cx):
    q = cx.new('m_layers')
    for i in (I, J):
        q.inst(i)
    g = bv(cx.st1.g['gh:payload'], 64)
    return [('accepted only with a payload', Implies(cx.res, And(z3.ULT(g, q.n), kind(q, g) == PAYLOAD))),
            ('accepted only when every layer is', Implies(And(cx.res, z3.ULT(I, q.n)), layer_ok(ident(q, I), seq(q)))),
            ('the layers are those of a list of child nodes, in the same order', Implies(cx.res, Or(*[And(q.n == n, Implies(z3.ULT(I, q.n), node_of(q, I) == kid(cx, sid, I))) for sid, n in cx.st1.g.get('lists', ())]))),
            ('accepted only when layers have different names', Implies(And(cx.res, z3.ULT(I, J), z3.ULT(J, q.n)), name(q, I) != name(q, J))),
            S.rejected_reports(cx)]


def kind_const(cls, k):
    return Contract(N + 'Parse%sLayerImpl::parseKindImpl' % cls, label=N + 'Parse%sLayerImpl::parseKindImpl' % cls, ensures=lambda cx: [('the kind of the class', bv(cx.res, 32) == k)], modifies=[], callable=False)


def contracts():
    return [kind_const(c, k) for k, c in enumerate(('Custom', 'Sync', 'Size', 'Id', 'Value', 'Payload', 'Checksum'))] + [
        Contract('virtual ' + L + '::parseVerifyImpl', cls=L, apply_fn=ap_verify, trusted=True, note='proved for each kind of layer'),
        Contract(L + '::parse', apply_fn=ap_parse, trusted=True, note='the layer keeps its node and has a name (C10); a rejection is reported (C16)'),
        Contract(L + '::parseCreate', apply_fn=ap_create, trusted=True, note='a new layer of the node (parseGetChildren only gives nodes with the name of a layer)'),
        Contract(L + '::parseSupportedTypes', apply_fn=ap_names, trusted=True, note='names of the layers'),
        Contract(N + 'ParseXmlWrap::parseGetChildren', apply_fn=ap_children, trusted=True, note='libxml2 tree'),
        Contract(F + '::parseUpdateLayers', requires=frame_pre, ensures=frame, modifies=['m_layers'], callable=False, pushes={'m_layers': pushed}, loops={F + '::parseUpdateLayers': read_loop}).logs(),
        Contract('virtual ' + L + '::parseKindImpl', cls=L, pure='layer_kind', trusted=True, note='constant of the class'),
        Contract(L + '::parseFindThisLayerIndex', requires=pre, ensures=found(is_me), modifies=[], apply_fn=ap_find(t_me, lambda q, i, k: ident(q, i) == k)),
        Contract(L + '::parseFindLayerIndex', sig='ParseKind', label=L + '::parseFindLayerIndex(kind)', requires=pre, ensures=found(is_kind), modifies=[], apply_fn=ap_find(t_kind, lambda q, i, k: kind(q, i) == k)),
        Contract(L + '::parseFindLayerIndex', sig='basic_string', label=L + '::parseFindLayerIndex(name)', requires=pre, ensures=found(is_named), modifies=[], apply_fn=ap_find(t_name, lambda q, i, k: name(q, i) == k)),
        Contract(L + '::parseVerifySingleLayer', requires=lambda cx: pre(cx) + B.node_ok(cx), ensures=single, modifies=[]).logs(),
        Contract(L + '::parseVerifyBeforePayload', requires=verify_pre, ensures=before_payload, modifies=[]).logs(),
        Contract(L + '::parseVerifySuffixLayersOrder', requires=order_pre, ensures=order, modifies=[], loops={L + '::parseVerifySuffixLayersOrder': order_loop}).logs(),
        Contract(N + 'ParsePayloadLayerImpl::parseVerifyImpl', requires=verify_pre, ensures=payload_layer, modifies=[], callable=False).logs(),
        Contract(N + 'ParseIdLayerImpl::parseVerifyImpl', requires=verify_pre, ensures=single_before, modifies=[], callable=False).logs(),
        Contract(N + 'ParseSizeLayerImpl::parseVerifyImpl', requires=verify_pre, ensures=single_before, modifies=[], callable=False).logs(),
        Contract(N + 'ParseValueLayerImpl::parseVerifyImpl', requires=verify_pre, ensures=before_payload, modifies=[], callable=False).logs(),
        Contract(N + 'ParseChecksumLayerImpl::parseVerifyImpl', requires=checksum_pre(CHECKSUM, ('m_from', 'm_until')), ensures=checksum, modifies=[], callable=False).logs(),
        Contract(N + 'ParseCustomLayerImpl::parseVerifyImpl', requires=verify_pre, ensures=custom, modifies=[], callable=False).logs(),
        Contract(N + 'ParseProtocolImpl::parseIsSyncSuffixLayerSupported', pure='sync_suffix', trusted=True, note='C14'),
        Contract(N + 'ParseSyncLayerImpl::parseVerifyImpl', requires=checksum_pre(SYNC, ('m_from',)), ensures=sync, modifies=['m_afterPayload'], callable=False).logs(),
    ]


# ------------------------------------------------------------------ replay corpus
BOUND = 'frames of 0 to 7 layers of every kind in random orders with names from a small pool (repeated and written in other cases), ends of checksums and starts of sync layers before, after, at and outside of every other layer; with dslVersion 5 to 8 and none'
KINDS = ('custom', 'sync', 'size', 'id', 'value', 'payload', 'checksum')
FIELDS = '<int name="U8" type="uint8"/><int name="U16" type="uint16"/><enum name="Id" type="uint8" semanticType="messageId"><validValue name="A" val="0"/></enum>'
IFACE = '<interface name="If"><fields><int name="Flags" type="uint8"/></fields></interface>'


def layer_text(kind, a):
    a = dict(a)
    if kind == 'payload':
        return el('payload', a)
    a.setdefault('field', {'id': 'Id', 'size': 'U16'}.get(kind, 'U8'))
    if kind == 'value':
        a['interfaceFieldName'] = 'Flags'
    if kind == 'checksum':
        a['alg'] = 'sum'
    return el(kind, a)


def frame_text(ls, wrap, dsl):
    body = ''.join(layer_text(k, a) for k, a in ls)
    return schema(FIELDS, IFACE + el('frame', dict(name='F'), el('layers', {}, body) if wrap else body), dsl=dsl)


def rand_layers(rng):
    kinds = [rng.choice(KINDS) for _ in range(rng.randint(0, 6))]
    if rng.random() < 0.7:
        kinds = [k for k in kinds if k not in ('payload', 'id', 'size')]
        pre = [k for k in kinds if k != 'value' and rng.random() < 0.5]
        vals = [k for k in kinds if k == 'value']
        post = [k for k in kinds if k not in ('value',)][len(pre):] + (['checksum'] * rng.randint(0, 2))
        front = pre + vals + rng.sample(['id', 'size'], rng.randint(0, 2))
        rng.shuffle(front)
        kinds = front + ['payload'] + post
    n = len(kinds)
    names = [rng.choice('ABCDEFGHabcd') if rng.random() < 0.03 else 'ABCDEFGHIJKL'[i] for i in range(n)]
    pool = names + ['Z', 'a']
    pp = kinds.index('payload') if 'payload' in kinds else 0
    lim = [pp]

    def before(i):
        """mostly a layer earlier than the starts so far"""
        if rng.random() < 0.15 or i == 0:
            return rng.choice(pool)
        if i > pp and rng.random() < 0.8:
            lim[0] = rng.randint(0, lim[0])
            return names[lim[0]]
        return names[rng.randint(0, i - 1)]

    def after(i):
        return rng.choice(pool) if rng.random() < 0.15 or i + 1 >= n else names[rng.randint(i + 1, n - 1)]
    out = []
    for i, k in enumerate(kinds):
        a = dict(name=names[i])
        if k == 'checksum':
            if rng.random() < 0.9 and i > 0:
                a['from'] = before(i)
            if ('from' not in a or rng.random() < 0.1) and rng.random() < 0.9:
                a['until'] = after(i)
        elif k == 'sync':
            if rng.random() < 0.4:
                a['seekField'] = 'true'
            elif rng.random() < 0.5:
                a['verifyBeforeRead'] = 'true'
            if rng.random() < (0.8 if i > pp else 0.05):
                a['from'] = before(i)
        elif k == 'custom' and rng.random() < 0.6:
            a['semanticLayerType'] = rng.choice(['checksum', 'checksum', 'custom', 'id'])
            if rng.random() < 0.7:
                a['checksumFrom'] = before(i)
            if rng.random() < 0.3:
                a['checksumUntil'] = after(i)
        out.append((k, a))
    return out


SEEK = 8


def expected(ls, dsl):
    """None when the frame is acceptable, else what is wrong with it"""
    names = [a['name'] for k, a in ls]
    kinds = [k for k, a in ls]
    if len(set(names)) != len(names):
        return 'two layers of one name'
    if kinds.count('payload') != 1:
        return '%d payload layers' % kinds.count('payload')
    p = kinds.index('payload')
    sup8 = dsl is None or dsl >= 8
    start = {}
    for i, (k, a) in enumerate(ls):
        if k in ('id', 'size') and kinds.count(k) != 1:
            return '%d %s layers' % (kinds.count(k), k)
        if k in ('id', 'size', 'value') and i > p:
            return '%s after the payload' % k
        f, u = None, None
        if k == 'checksum':
            f, u = a.get('from'), a.get('until')
        if k == 'custom' and a.get('semanticLayerType') == 'checksum' and (dsl is None or dsl >= 7):
            f, u = a.get('checksumFrom'), a.get('checksumUntil')
        elif k == 'custom':
            continue
        if k in ('checksum', 'custom'):
            if not f and not u:
                return 'checksum without ends'
            if f and (f not in names or names.index(f) >= i):
                return 'checksum start not before it'
            if u and (u not in names or names.index(u) <= i):
                return 'checksum end not after it'
            if k == 'checksum' and f:
                start[i] = names.index(f)
        if k == 'sync':
            f = a.get('from')
            seek = a.get('seekField') and (dsl is None or dsl >= SEEK)
            if a.get('verifyBeforeRead') and seek:
                return 'a seeking sync layer read before its verification'
            if f and not seek and not (a.get('verifyBeforeRead') and sup8):
                return 'sync start without use'
            if not sup8:
                continue
            if i < p and f:
                return 'sync start before the payload'
            if i > p and not f and seek:
                return 'seeking sync after the payload without start'
            if f and (f not in names or names.index(f) > p):
                return 'sync start not before the payload'
            if f:
                start[i] = names.index(f)
    last = None
    for i in sorted(start):
        if i > p:
            for j in start:
                if p < j < i and start[j] < start[i]:
                    return 'a suffix layer starts later than one before it'
    return None


def cases(rng, tier):
    fixed = [[('payload', dict(name='P'))], [], [('id', dict(name='A'))], [('payload', dict(name='P')), ('payload', dict(name='Q'))],
             [('payload', dict(name='P')), ('checksum', dict(name='C', until='P'))], [('checksum', dict(name='C', until='P')), ('payload', dict(name='P'))],
             [('size', dict(name='S')), ('payload', dict(name='P')), ('checksum', dict(name='C', **{'from': 'S'})), ('checksum', dict(name='D', **{'from': 'S'}))],
             [('size', dict(name='S')), ('id', dict(name='I')), ('payload', dict(name='P')), ('checksum', dict(name='C', **{'from': 'S'})), ('checksum', dict(name='D', **{'from': 'I'}))],
             [('size', dict(name='S')), ('id', dict(name='I')), ('payload', dict(name='P')), ('checksum', dict(name='C', **{'from': 'I'})), ('sync', dict(name='D', **{'from': 'S', 'seekField': 'true'}))]]
    for ls in fixed:
        for wrap in (True, False):
            for dsl in (None, 5, 8):
                yield ('S', frame_text(ls, wrap, dsl), (ls, dsl))
    for _ in range(2500 if tier == 'quick' else 40000):
        ls = rand_layers(rng)
        dsl = rng.choice([None, None, None, 5, 6, 7, 8])
        yield ('S', frame_text(ls, rng.random() < 0.5, dsl), (ls, dsl))


def judge(c, o):
    ls, dsl = c[2]
    if dsl is not None and dsl < 8 and any(k == 'custom' and 'semanticLayerType' in a for k, a in ls):
        return None if 'crash' not in o else ('crash', o['crash'][-200:])
    bad = expected(ls, dsl)
    if bad == '?':
        return None
    if 'crash' in o:
        return ('crash', o['crash'][-300:])
    if bad:
        if o.get('valid'):
            return ('accepted', 'a frame with %s is accepted' % bad)
        return None if o.get('errs') else ('silent', 'a frame with %s is rejected without a reported error' % bad)
    if not o.get('valid'):
        return ('rejected', 'a proper frame is rejected: %s' % (o.get('msgs') or [''])[0][-200:])
    f = [f for n in o['schemas'][0]['ns'] for f in n['frames']][0]
    got = [(x['name'], x['kind']) for x in f['layers']]
    if got != [(a['name'], KINDS.index(k)) for k, a in ls]:
        return ('layers', 'the reported layers are %s' % got)
    for (k, a), x in zip(ls, f['layers']):
        if k == 'checksum' and (x['from'], x['until']) != (a.get('from', ''), a.get('until', '')):
            return ('ends', 'checksum %s is reported from %r until %r' % (a['name'], x['from'], x['until']))
        if k == 'sync' and (dsl is None or dsl >= 8) and (x['from'] != a.get('from', '') or x['after'] != (got.index((x['name'], 1)) > [g[1] for g in got].index(PAYLOAD))):
            return ('sync', 'sync layer %s is reported from %r, after the payload: %s' % (a['name'], x['from'], x['after']))
    return None


ASSUME = ['fewer than 2^40 layers', 'a layer object is written only before it is put into the frame (checked: a later write makes the proof fail)', 'parseGetChildren returns nodes of the names asked for (libxml2)']
