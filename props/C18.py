"""C18: references and reuse resolve to exactly the named definition."""
import itertools
import re
import z3
from irv.contract import Contract, V, get_str, set_str, load_typed
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, StrS, ObjS, strlit, Houdini, Forall, simp, slen, schr
from irv import base as B, stl
from irv.llparse import PTR
from irv.xml import schema, el
from props import intspec as S, nodespec as X, C14, C17, C19, fold
from props.C19 import raw, isnull

N = 'commsdsl::parse::'
NS, SCH, PRO = N + 'ParseNamespaceImpl', N + 'ParseSchemaImpl', N + 'ParseProtocolImpl'
SRCS = ['parse/Parse%sImpl.cpp' % x for x in ('Namespace', 'Schema', 'Message', 'Interface', 'Field', 'IntField', 'EnumField', 'SetField', 'FloatField', 'RefField', 'StringField', 'DataField', 'ListField', 'OptionalField', 'BitfieldField',
                                              'BundleField', 'VariantField')]
B64 = z3.BitVecSort(64)
NPOS = z3.BitVecVal(2**64 - 1, 64)
WHAT = {'Field': ('m_fields', 'ParseFieldImpl'), 'Message': ('m_messages', 'ParseMessageImpl'), 'Interface': ('m_interfaces', 'ParseInterfaceImpl'), 'Frame': ('m_frames', 'ParseFrameImpl')}


def lookup(eng, st, this, cls, member, key, mod, value):
    """(the map has the key, identity of what it maps the key to): std::map::find of the member"""
    p = V(eng, st, this, cls, mod)
    off, ty = p.at(member)
    k = stl.KeyTy('std::string')
    if 'KeyComp' in ty or member != 'm_namespaces':
        k.comp = KEYCOMP
    nt = stl.node_type('std::string', 'std::unique_ptr<%s>' % value)
    m = stl.get_vec(eng, st, this.add(off), nt, mod, 'map', k, False)
    (s, i), = stl.map_find(eng, st, m, k, SV(key) if not isinstance(key, SV) else key, mod)
    e = stl.idx_ptr(eng, st, m.store, i).add(32)
    v = eng.load(st, e, PTR, mod)
    return z3.ULT(bv(i, 64), bv(m.n, 64)), eng.ident_of(st, raw(v)), isnull(v)


def is_obj(cx, r, ident):
    return z3.BoolVal(False) if r.obj is None else cx.eng.ident_of(cx.st1, raw(r)) == ident


KEYCOMP = NS + '::ParseKeyComp'


def ns_find_ens(what):
    member, cls = WHAT[what]

    def ens(cx):
        there, ident, _ = lookup(cx.eng, cx.st1, cx.arg('this'), NS, member, cx.str_arg(0), cx.mod, N + cls)
        r = cx.result
        return [('something is found when the name is known', Not(bl(isnull(r))) == there),
                ('what is found is what the name stands for', Implies(there, is_obj(cx, r, ident)))]
    return ens


def ns_find_pre(what):
    member, cls = WHAT[what]

    def pre(cx):
        there, _, no = lookup(cx.eng, cx.st0, cx.arg('this'), NS, member, cx.str_arg(0), cx.mod, N + cls)
        cx.st0.assume(Implies(there, Not(bl(no))))
        return []
    return pre


# ---- the namespace a path leads to: component by component from the root of the schema
DOT = strlit('.')
first_dot = lambda s, p: z3.Function('strffo', StrS, StrS, B64, B64)(s, DOT, p)
last_dot = lambda s: z3.Function('strflo', StrS, StrS, B64, B64)(s, DOT, NPOS)
sub = lambda s, i, n: z3.Function('substr', StrS, B64, B64, StrS)(s, bv(i, 64), simp(bv(n, 64)))
walks = z3.Function('spec_walks', ObjS, StrS, B64, z3.BoolSort())       # (schema, path, position after a dot): every namespace named before the position exists
walk = z3.Function('spec_walk', ObjS, StrS, B64, ObjS)                  # the namespace they lead to
c64 = lambda x: z3.BitVecVal(x, 64)


def ref_facts(eng, st, s):
    """what an accepted path looks like (C10: names joined by single dots)"""
    n = slen(s)
    ok = B.refname_ok(s)
    ch = lambda i: schr(s, i)
    dot = z3.BitVecVal(ord('.'), 8)
    st.assume(Implies(ok, And(n != 0, z3.ULT(n, 1 << 40), ch(c64(0)) != dot, ch(n - 1) != dot)))
    v = z3.FreshConst(B64, 'rd')
    st.foralls.append(Forall(0, simp(z3.If(ok, n - 1, c64(0))), v, Or(ch(v) != dot, ch(v + 1) != dot), [], stl.chars_obj(eng, st, SV(s))))


def step(eng, st, this, s, p, ns, mod):
    """what walks and walk are after the component that starts at p; ns: the namespace so far"""
    sch = eng.ident_of(st, this)
    q = first_dot(s, p)
    name = SV(sub(s, p, q - p))
    t0, i0, n0 = lookup(eng, st, this, SCH, 'm_namespaces', name, mod, NS)
    out = [Implies(t0, Not(bl(n0)))]
    t1, i1 = z3.BoolVal(False), i0
    if ns is not None and ns.obj is not None:
        t1, i1, n1 = lookup(eng, st, raw(ns), NS, 'm_namespaces', name, mod, NS)
        out.append(Implies(t1, Not(bl(n1))))
    root = p == 0
    out += [walks(sch, s, q + 1) == And(walks(sch, s, p), q != NPOS, z3.UGT(q, p), z3.If(root, t0, t1)),
            Implies(q != NPOS, walk(sch, s, q + 1) == z3.If(root, i0, i1)),
            walks(sch, s, c64(0)),
            # no namespace further down exists when one before it does not (induction over the components)
            Implies(And(walks(sch, s, last_dot(s) + 1), z3.ULE(q, last_dot(s))), walks(sch, s, q + 1))]
    return out


def walk_loop(eng, st, fn, blk):
    sp = eng.__dict__.setdefault('_houdini', {})
    if (fn.name, blk) not in sp:
        this, s = eng.this_of_run, eng.ref_of_run

        def gen(lp):
            cs, facts = [], []
            pos = ns = None
            for (oid, ck), nv in [(k, v) for k, v in lp.hav.items() if isinstance(k, tuple)]:
                old = (lp.st.obj(oid).cells.get(ck) or (0, None))[1]
                at = lambda st, oid=oid, ck=ck: st.obj(oid).cells[ck][1]
                if isinstance(nv, Ptr) and isinstance(old, Ptr):
                    ns = at
                elif old is not None and (z3.is_bv(nv) and nv.size() == 64):
                    pos = at
            if pos is None or ns is None:
                return [], []
            p = bv(pos(lp.sh), 64)
            sch = eng.ident_of(lp.sh, this)
            L = last_dot(s)
            facts += step(eng, lp.sh, this, s, p, ns(lp.sh), fn.mod)
            co = stl.chars_obj(eng, lp.sh, SV(s))
            for t in (L, L - 1, p, p - 1, first_dot(s, p), first_dot(s, p) - 1):
                stl.inst(lp.sh, co, t)
            lp.st.assume(walks(sch, s, c64(0)))
            ident = lambda st: eng.ident_of(st, raw(ns(st)))
            cs.append(('root', 'at the root before the first component', lambda st: (bv(pos(st), 64) == 0) == isnull(ns(st))))
            cs.append(('walks', 'the namespaces so far exist', lambda st: walks(sch, s, bv(pos(st), 64))))
            cs.append(('ns', 'the namespace they lead to', lambda st: z3.BoolVal(True) if ns(st).obj is None else Implies(Not(isnull(ns(st))), ident(st) == walk(sch, s, bv(pos(st), 64)))))
            cs.append(('bound', 'not beyond the last name', lambda st: z3.ULE(bv(pos(st), 64), L + 1)))
            cs.append(('dot', 'after a dot', lambda st: Or(bv(pos(st), 64) == 0, schr(s, bv(pos(st), 64) - 1) == z3.BitVecVal(ord('.'), 8))))
            return facts, cs
        sp[(fn.name, blk)] = Houdini(gen)
    return sp[(fn.name, blk)]


def path_pre(cx):
    eng = cx.eng
    s = cx.str_arg(0).z()
    eng.this_of_run, eng.ref_of_run = cx.arg('this'), s
    ref_facts(eng, cx.st0, s)
    t, _, no = lookup(eng, cx.st0, cx.arg('this'), SCH, 'm_namespaces', SV(''), cx.mod, NS)
    cx.st0.assume(Implies(t, Not(bl(no))))
    return [('the path is a path', Or(bl(cx.arg(1)), B.refname_ok(s)))]


def path_spec(eng, st, this, s, mod):
    """(the namespace exists, its identity, the name in it)"""
    sch = eng.ident_of(st, this)
    L = last_dot(s)
    t, i, _ = lookup(eng, st, this, SCH, 'm_namespaces', SV(''), mod, NS)
    here = L == NPOS
    return And(B.refname_ok(s), z3.If(here, t, walks(sch, s, L + 1))), z3.If(here, i, walk(sch, s, L + 1)), z3.If(here, s, sub(s, L + 1, slen(s) - (L + 1)))


def path_ens(cx):
    s = cx.str_arg(0).z()
    there, ident, name = path_spec(cx.eng, cx.st1, cx.arg('this'), s, cx.mod)
    r = cx.result
    rem = get_str(cx.eng, cx.st1, cx.arg(2)).z()
    return [('found when every namespace of the path exists', Not(isnull(r)) == there),
            ('the namespace the path leads to', Implies(there, is_obj(cx, r, ident))),
            ('the name that is left', Implies(there, rem == name))]


# what a name stands for in a namespace (proved of std::map::find above), in a schema, in the protocol
NSF = {w: (z3.Function('spec_known_%s' % w, ObjS, StrS, z3.BoolSort()), z3.Function('spec_named_%s' % w, ObjS, StrS, ObjS)) for w in WHAT}
SCF = {w: (z3.Function('spec_schknown_%s' % w, ObjS, StrS, z3.BoolSort()), z3.Function('spec_schnamed_%s' % w, ObjS, StrS, ObjS)) for w in WHAT}
PRF = {w: (z3.Function('spec_proknown_%s' % w, ObjS, StrS, z3.BoolSort()), z3.Function('spec_pronamed_%s' % w, ObjS, StrS, ObjS)) for w in WHAT}


def which(nm):
    return next(w for w in WHAT if nm.split('(')[0].endswith('parseFind' + w))


def ap_of(tab):
    def ap(eng, st, args, ins, mod, name):
        w = which(eng.prog.dem.get(name, name))
        i, s = eng.ident_of(st, args[0]), get_str(eng, st, args[1]).z()
        if tab is SCF:
            eng.oblige(st, 'the path is a path', Or(bl(args[2]), B.refname_ok(s)), 'pre', eng.loc())
        return [(st, 'ret', Ptr(eng.lazy_obj(st, tab[w][1](i, s), N + WHAT[w][1], 'found'), 0, nul=Not(tab[w][0](i, s))))]
    return ap


def ap_path(eng, st, args, ins, mod, name):
    s = get_str(eng, st, args[1]).z()
    eng.oblige(st, 'the path is a path', Or(bl(args[2]), B.refname_ok(s)), 'pre', eng.loc())
    there, ident, nm = path_spec(eng, st, args[0], s, mod)
    set_str(eng, st, args[3], SV(simp(z3.If(there, nm, z3.FreshConst(StrS, 'rem')))))
    return [(st, 'ret', Ptr(eng.lazy_obj(st, ident, NS, 'ns'), 0, nul=simp(Not(there))))]


def sch_find_ens(what):
    def ens(cx):
        s = cx.str_arg(0).z()
        there, ident, name = path_spec(cx.eng, cx.st1, cx.arg('this'), s, cx.mod)
        known, named = NSF[what]
        ok = And(there, known(ident, name))
        r = cx.result
        return [('found when the path leads to a namespace that knows the name', Not(isnull(r)) == ok),
                ('what the name stands for there', Implies(ok, is_obj(cx, r, named(ident, name))))]
    return ens


# ---- which schema a path is about
MARK = z3.BitVecVal(ord('@'), 8)
K = z3.BitVec('k_schema', 64)


def schemas_of(cx, st):
    return V(cx.eng, st, cx.arg('this'), PRO, cx.mod)('m_schemas')


def sch_name(cx, st, q, i):
    p = eng_load(cx, st, q, i)
    return V(cx.eng, st, raw(p), SCH, cx.mod)('m_name').z()


def eng_load(cx, st, q, i):
    return cx.eng.load(st, q.ptr(i), PTR, cx.mod)


def ext_pre(cx):
    q = schemas_of(cx, cx.st0)
    v = z3.FreshConst(B64, 'sv')
    cx.st0.foralls.append(Forall(0, q.n, v, Not(isnull(eng_load(cx, cx.st0, q, v))), [], q.v.store))
    cx.st0.assume(z3.ULT(q.n, 1 << 40))
    s = cx.str_arg(0).z()
    return [('the path is not empty', slen(s) != 0)]


def ext_ens(cx):
    eng, st = cx.eng, cx.st1
    s = cx.str_arg(0).z()
    r = cx.arg('sret')
    first = eng.load(st, r, PTR, cx.mod)
    second = get_str(eng, st, r.add(8)).z()
    q = schemas_of(cx, st)
    q.inst(K)
    dot = z3.Function('strfind', StrS, StrS, B64, B64)(s, DOT, c64(0))
    marked = schr(s, c64(0)) == MARK
    name, rest = sub(s, 1, dot - 1), sub(s, dot + 1, slen(s) - (dot + 1))
    n0 = isnull(first)
    cur = curr_schema(eng.ident_of(cx.st0, cx.arg('this')))
    out = [('a path without a mark is about the current schema', Implies(Not(marked), And(Not(n0), is_obj(cx, first, cur), second == s))),
           ('a mark without a dot is about no schema', Implies(And(marked, dot == NPOS), n0)),
           ('the path in the schema is what follows the first dot', Implies(And(marked, dot != NPOS), second == rest)),
           ('none only when no schema has the name', Implies(And(marked, dot != NPOS, n0, z3.ULT(K, q.n)), sch_name(cx, st, q, K) != name))]
    w = witness(eng, st, first, q)
    if w is None:
        out.append(('a schema with exactly the name', Implies(And(marked, dot != NPOS), n0)))
    else:
        out.append(('a schema with exactly the name', Implies(And(marked, dot != NPOS, Not(n0)), And(z3.ULT(w, q.n), is_obj(cx, first, eng.ident_of(st, raw(eng_load(cx, st, q, w)))), sch_name(cx, st, q, w) == name))))
    return out


def witness(eng, st, p, q):
    """the position in the container of the element that was loaded"""
    if p.obj is None:
        return None
    e = z3.Function('elem', ObjS, B64, ObjS)
    todo, seen = [eng.ident_of(st, raw(p))], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.decl().eq(e):
            return t.arg(1)
        todo += t.children()
    return None


curr_schema = z3.Function('obs_curr_schema', ObjS, ObjS)


def curr_pre(cx):
    p = V(cx.eng, cx.st0, cx.arg('this'), PRO, cx.mod)('m_currSchema')
    return [('a schema is being read', Not(isnull(p)))]


def curr_ens(cx):
    p = V(cx.eng, cx.st0, cx.arg('this'), PRO, cx.mod)('m_currSchema')
    return [('the schema that is being read', is_obj(cx, cx.result, cx.eng.ident_of(cx.st0, raw(p))))]


# ---- a schema may only be referred to from itself or a later one
def can_pre(cx):
    eng, st = cx.eng, cx.st0
    q = schemas_of(cx, st)
    me, cur = eng.ident_of(st, cx.arg(0)), curr_schema(eng.ident_of(st, cx.arg('this')))
    i, j = SI, SJ
    at = lambda k: eng.ident_of(st, raw(eng_load(cx, st, q, k)))
    for k in (i, j):
        q.inst(k)
    st.assume(And(z3.ULT(q.n, 1 << 40), z3.ULT(i, q.n), z3.ULT(j, q.n), at(i) == me, at(j) == cur, Not(isnull(cx.arg(0)))))
    v = z3.FreshConst(B64, 'sv')
    # the schemas are different objects
    st.foralls.append(Forall(0, q.n, v, And(Not(isnull(eng_load(cx, st, q, v))), Implies(at(v) == me, v == i), Implies(at(v) == cur, v == j)), [], q.v.store))
    return []


SI, SJ = z3.BitVecs('pos_schema pos_current', 64)


def can_ens(cx):
    eng, st = cx.eng, cx.st1
    me, cur = eng.ident_of(cx.st0, cx.arg(0)), curr_schema(eng.ident_of(cx.st0, cx.arg('this')))
    ok = z3.ULE(SI, SJ)
    return [('allowed exactly when the schema is the current one or was defined before it', cx.res == ok),
            ('a rejection is reported', Implies(Not(cx.res), bl(cx.err()))),
            ('an accepted reference reports nothing', Implies(cx.res, B.same_err(cx)))]


# ---- what a path stands for: the schema it is about, when that may be referred to, and the definition in it
ext_none = z3.Function('spec_noschema', ObjS, StrS, z3.BoolSort())
ext_schema = z3.Function('spec_schema_of', ObjS, StrS, ObjS)
can_ref = z3.Function('spec_can_ref', ObjS, ObjS, z3.BoolSort())


def ext_rest(s):
    """the path in the schema"""
    dot = z3.Function('strfind', StrS, StrS, B64, B64)(s, DOT, c64(0))
    return z3.If(schr(s, c64(0)) == MARK, sub(s, dot + 1, slen(s) - (dot + 1)), s)


def ap_ext(eng, st, args, ins, mod, name):
    out, pro, s = args[0], eng.ident_of(st, args[1]), get_str(eng, st, args[2]).z()
    eng.oblige(st, 'the path is not empty', slen(s) != 0, 'pre', eng.loc())
    eng.store(st, out, Ptr(eng.lazy_obj(st, ext_schema(pro, s), SCH, 'schema'), 0, nul=ext_none(pro, s)), PTR, mod)
    dot = z3.Function('strfind', StrS, StrS, B64, B64)(s, DOT, c64(0))
    nodot = And(schr(s, c64(0)) == MARK, dot == NPOS)
    st.assume(Implies(nodot, ext_none(pro, s)))
    set_str(eng, st, out.add(8), SV(simp(z3.If(nodot, s, ext_rest(s)))))
    return [(st, 'ret', None)]


def ap_can(eng, st, args, ins, mod, name):
    ok = can_ref(eng.ident_of(st, args[0]), eng.ident_of(st, raw(args[1])))
    st.g['gh:err'] = simp(Or(bl(st.g.get('gh:err', False)), Not(ok)))
    return [(st, 'ret', ok)]


def pro_known(what, pro, s):
    sc, rest = ext_schema(pro, s), ext_rest(s)
    return And(slen(s) != 0, Not(ext_none(pro, s)), slen(rest) != 0, can_ref(pro, sc), SCF[what][0](sc, rest)), SCF[what][1](sc, rest)


def pro_find_pre(cx):
    s = cx.str_arg(0).z()
    pro = cx.eng.ident_of(cx.st0, cx.arg('this'))
    return [('the path is a path', Or(bl(cx.arg(1)), B.refname_ok(ext_rest(s)), ext_none(pro, s)))]


def pro_find_ens(what):
    def ens(cx):
        s = cx.str_arg(0).z()
        ok, ident = pro_known(what, cx.eng.ident_of(cx.st0, cx.arg('this')), s)
        r = cx.result
        return [('found when the path names a definition of a schema that may be referred to', Not(isnull(r)) == ok),
                ('the definition the path names', Implies(ok, is_obj(cx, r, ident)))]
    return ens


# ---- reuse: the state of the definition that is reused, before anything written next to the reference is read
FLD = N + 'ParseFieldImpl'
CODE = 'm_state.m_copyCodeFrom'            # reused only when asked for
RID = z3.BitVec('k_elem', 64)


def ap_pro(eng, st, args, ins, mod, name):
    w = which(eng.prog.dem.get(name, name))
    i, s = eng.ident_of(st, args[0]), get_str(eng, st, args[1]).z()
    ok = PRF[w][0](i, s)
    eng.oblige(st, 'the path is checked', bl(args[2]), 'pre', eng.loc())
    st.g['gh:err'] = simp(Or(bl(st.g.get('gh:err', False)), And(Not(ok), z3.FreshConst(z3.BoolSort(), 'el'))))
    return [(st, 'ret', Ptr(eng.lazy_obj(st, PRF[w][1](i, s), N + WHAT[w][1], 'found'), 0, nul=Not(ok)))]


reuse_ok = z3.Function('spec_reuse_ok', ObjS, ObjS, z3.BoolSort())


def ap_reuse(eng, st, args, ins, mod, name):
    """the part of the kind: a function of both definitions (a rejection is reported)"""
    ok = reuse_ok(eng.ident_of(st, args[0]), eng.ident_of(st, raw(args[1])))
    st.g['gh:err'] = simp(Or(bl(st.g.get('gh:err', False)), Not(ok)))
    return [(st, 'ret', ok)]


def reused(cx, what, cls):
    s = S.prop_str(cx, 'reuse')
    pro = cx.eng.ident_of(cx.st0, raw(cx.old('m_protocol')))
    known, ident = PRF[what][0](pro, s), PRF[what][1](pro, s)
    p = Ptr(cx.eng.lazy_obj(cx.st1, ident, cls, 'found'), 0)
    return known, ident, p


def members(cx, cls, prefixes):
    return [nm for off, (nm, ty) in sorted(cx.eng.prog.layouts[cls].f.items()) if nm.startswith(prefixes)]


def same(cx, a, b):
    if hasattr(a, 'elemty'):
        a.inst(RID)
        b.inst(RID)
        t = stl.clean(a.elemty)
        out = [a.n == b.n]
        for v in (a, b):
            if not isinstance(v.v.n, int):
                cx.st1.assume(z3.ULT(v.n, 1 << 40))
        if t == 'std::string':
            out.append(Implies(z3.ULT(RID, b.n), a[RID].z() == b[RID].z()))
        elif t == 'std::pair<std::string const, std::string>':
            tx = lambda q, o: get_str(q.eng, q.st, q.ptr(RID).add(o)).z()
            out.append(Implies(z3.ULT(RID, b.n), And(tx(a, 0) == tx(b, 0), tx(a, 32) == tx(b, 32))))
        return And(*out)
    if hasattr(a, 'z'):
        return a.z() == b.z()
    return a == b


def state_same(cx, src, cls, names, skip=()):
    v1, v2 = cx.new, V(cx.eng, cx.st1, src, cls, cx.mod)
    return And(*[same(cx, v1(m), v2(m)) for m in names if m not in skip])


def field_reuse_pre(cx):
    known, ident, p = reused(cx, 'Field', FLD)
    v = V(cx.eng, cx.st0, p, FLD, cx.mod)
    me = cx.eng.ident_of(cx.st0, cx.arg('this'))
    # a definition of a namespace has no versions (C08); it was recorded before this one
    cx.st0.assume(Implies(known, And(v('m_rState.m_sinceVersion') == 0, v('m_rState.m_deprecated') == z3.BitVecVal(2**32 - 1, 32), Not(v('m_rState.m_deprecatedRemoved')), ident != me)))
    return B.node_ok(cx)


def field_reuse_ens(cx):
    cnt = S.prop(cx, 'reuse')
    known, ident, p = reused(cx, 'Field', FLD)
    me = cx.eng.ident_of(cx.st0, cx.arg('this'))
    kind = S.field_kind(ident) == S.field_kind(me)
    ms = members(cx, FLD, ('m_state.',))
    v = V(cx.eng, cx.st1, p, FLD, cx.mod)
    asked = And(S.prop(cx, 'reuseCode') == 1, B.bool_v(S.prop_str(cx, 'reuseCode')), S.supported(cx, C14.prop_since(strlit('reuseCode'))))
    old = V(cx.eng, cx.st0, cx.arg('this'), FLD, cx.mod)
    return [('accepted without reuse', Implies(cnt == 0, cx.res)),
            ('at most one definition is reused', Implies(cx.res, z3.ULE(cnt, 1))),
            ('a known definition of the same kind', Implies(And(cx.res, cnt == 1), And(known, kind, reuse_ok(me, ident)))),
            ('its properties', Implies(And(cx.res, cnt == 1), state_same(cx, p, FLD, ms, (CODE,)))),
            ('its code only when asked for', Implies(And(cx.res, cnt == 1), cx.new(CODE).z() == z3.If(asked, S.prop_str(cx, 'reuse'), strlit('')))),
            ('nothing is taken over without reuse', Implies(cnt == 0, And(*[same(cx, cx.new(m), old(m)) for m in ms]))),
            S.rejected_reports(cx)]


PARTS_OF = {'ref': ['m_field'], 'string': ['m_prefixField'], 'data': ['m_prefixField'], 'optional': ['m_field', 'm_cond'], 'bitfield': ['m_endian', 'm_members', 'm_validCond'],
            'bundle': ['m_members', 'm_aliases', 'm_validCond'], 'variant': ['m_members'], 'list': ['m_elementField', 'm_countPrefixField', 'm_lengthPrefixField', 'm_elemLengthPrefixField', 'm_termSuffixField']}
clone_of = z3.Function('spec_clone', ObjS, ObjS)


def ap_clone(cls):
    def ap(eng, st, args, ins, mod, name):
        oid = eng.lazy_obj(st, clone_of(eng.ident_of(st, raw(args[1]))), cls, 'clone')
        eng.store(st, args[0], Ptr(oid), PTR, mod)
        return [(st, 'ret', None)]
    return ap


def own_members(eng, cls):
    base = max(eng.prog.layouts[FLD].f)
    return [(off, nm) for off, (nm, ty) in sorted(eng.prog.layouts[cls].f.items()) if off > base and nm.startswith('m_state.')]


def kind_pre(k):
    def pre(cx):
        eng, st = cx.eng, cx.st0
        st.assume(S.field_kind(eng.ident_of(st, cx.arg('this'))) == S.KINDS.index(k))
        cls = N + 'Parse%sFieldImpl' % k.capitalize()
        if k == 'ref':
            f = V(eng, st, raw(cx.arg(0)), cls, cx.mod)('m_field')
            st.assume(Not(isnull(f)))          # an accepted reference has a target (C13)
        for m in PARTS_OF.get(k, ()) if k != 'ref' else ():
            mine, o = cx.old(m), V(eng, st, raw(cx.arg(0)), cls, cx.mod)
            other = o(m)
            if hasattr(mine, 'elemty'):
                v = z3.FreshConst(B64, 'mv')
                st.assume(mine.n == 0)         # nothing was read yet
                st.foralls.append(Forall(0, other.n, v, Not(isnull(other[v])), [], other.v.store))
            elif isinstance(mine, Ptr):
                st.assume(isnull(mine))
                ext = {'m_prefixField': 'm_extPrefixField', 'm_cond': None, 'm_validCond': None}.get(m, 'm_ext' + m[2:3].upper() + m[3:])
                if ext:
                    st.assume(Or(isnull(other), isnull(o(ext))))       # a part is defined or referred to (C19)
        return [('a definition of the same kind', S.field_kind(eng.ident_of(st, cx.arg(0))) == S.field_kind(eng.ident_of(st, cx.arg('this'))))]
    return pre


def aliases_too(cx):
    sup = S.supported(cx, z3.BitVecVal(3, 32))
    given = And(S.prop(cx, 'reuseAliases') == 1, S.supported(cx, C14.prop_since(strlit('reuseAliases'))))
    return And(sup, Or(Not(given), B.bool_v(S.prop_str(cx, 'reuseAliases'))))


def kind_ens(cls, k):
    def ens(cx):
        eng = cx.eng
        out = []
        L = eng.prog.layouts[cls].f
        ld = lambda st, p, off: load_typed(eng, st, p.add(off), L[off][1], cx.mod)
        me, src = cx.arg('this'), Ptr(cx.arg(0).obj, cx.arg(0).off)
        for off, nm in own_members(eng, cls):
            out.append(same(cx, ld(cx.st1, me, off), ld(cx.st1, src, off)))
        base = members(cx, FLD, ('m_state.', 'm_rState.'))
        out2 = And(*[same(cx, V(eng, cx.st1, me, FLD, cx.mod)(m), V(eng, cx.st0, me, FLD, cx.mod)(m)) for m in base])
        for m in PARTS_OF.get(k, ()):
            a, b = V(eng, cx.st1, me, cls, cx.mod)(m), V(eng, cx.st1, src, cls, cx.mod)(m)
            if hasattr(a, 'elemty'):
                n = b.n if m != 'm_aliases' else z3.If(aliases_too(cx), b.n, c64(0))
                for q in (a, b):
                    q.inst(RID)
                out.append(And(a.n == n, Implies(z3.ULT(RID, n), And(Not(isnull(a[RID])), is_obj(cx, a[RID], clone_of(eng.ident_of(cx.st1, raw(b[RID]))))))))
            elif isinstance(a, Ptr):
                t = eng.ident_of(cx.st1, raw(b)) if b.obj is not None else None
                out.append(And(isnull(a) == isnull(b), Or(isnull(a), is_obj(cx, a, t if k == 'ref' else clone_of(t)) if t is not None else z3.BoolVal(False))))
            else:
                out.append(a == b)
        if k == 'bundle':
            return [('the common part stays', Implies(cx.res, out2)), ('everything the other definition says', Implies(cx.res, And(*out))), S.rejected_reports(cx),
                    ('refused only for its own property', Or(cx.res, S.prop(cx, 'reuseAliases') != 0))]
        return [('reused', cx.res), ('the common part stays', out2), ('everything the other definition says', And(*out))]
    return ens


def contracts():
    out = []
    for w in WHAT:
        out.append(Contract(NS + '::parseFind' + w, requires=ns_find_pre(w), ensures=ns_find_ens(w), modifies=[], callable=False))
        out.append(Contract(NS + '::parseFind' + w, apply_fn=ap_of(NSF), trusted=True, note='what std::map::find of the members gives, proved apart'))
        if w != 'Frame':
            out.append(Contract(SCH + '::parseFind' + w, requires=path_pre, ensures=sch_find_ens(w), modifies=[], callable=False))
            out.append(Contract(SCH + '::parseFind' + w, apply_fn=ap_of(SCF), trusted=True, note='proved apart'))
            out.append(Contract(PRO + '::parseFind' + w, requires=pro_find_pre, ensures=pro_find_ens(w), modifies=[], callable=False).logs())
    out.append(Contract(SCH + '::parseGetNsFromPath', requires=path_pre, ensures=path_ens, modifies=[(2, 'std::string')], callable=False, loops={SCH + '::parseGetNsFromPath': walk_loop}))
    out.append(Contract(SCH + '::parseGetNsFromPath', apply_fn=ap_path, trusted=True, note='proved apart'))
    out.append(Contract(PRO + '::parseExternalRef', requires=ext_pre, ensures=ext_ens, modifies=[], callable=False))
    out.append(Contract(PRO + '::parseExternalRef', apply_fn=ap_ext, trusted=True, note='proved apart'))
    out.append(Contract(PRO + '::parseCanRefSchema', apply_fn=ap_can, trusted=True, note='proved apart'))
    for w in ('Field', 'Message', 'Interface'):
        out.append(Contract(PRO + '::parseFind' + w, apply_fn=ap_pro, trusted=True, note='proved apart'))
    out.append(Contract('virtual ' + FLD + '::parseReuseImpl', cls=FLD, apply_fn=ap_reuse, trusted=True, note='the part of the kind'))
    out.append(Contract(FLD + '::parseValidateAndUpdateBoolPropValue', ensures=C14.bool_ens, modifies=[(1, 'bool')], trusted=True, note='C14').logs())
    out.append(Contract(FLD + '::parseCheckReuse', requires=field_reuse_pre, ensures=field_reuse_ens, modifies=['m_state.*', 'm_rState.*'], callable=False).logs())
    for k in S.KINDS:
        c = N + 'Parse%sFieldImpl' % k.capitalize()
        out.append(Contract(c + '::parseReuseImpl', requires=kind_pre(k), ensures=kind_ens(c, k), modifies=['m_state.*'] + PARTS_OF.get(k, []), callable=False).logs())
    for x in ('ParseFieldImpl', 'ParseOptCondImpl', 'ParseAliasImpl'):
        out.append(Contract(N + x + '::parseClone', apply_fn=ap_clone(N + x), trusted=True, note='a copy (of what it says: decided by the corpus)'))
    out.append(Contract(PRO + '::parseCurrSchema', requires=curr_pre, ensures=curr_ens, modifies=[], callable=False))
    out.append(Contract(PRO + '::parseCanRefSchema', requires=can_pre, ensures=can_ens, modifies=[], callable=False).logs())
    return out


# ------------------------------------------------------------------ the real parser: reuse against a definition in full
KINDS = C17.KINDS
NEVER = ('name', 'reuse', 'cond', 'copyFieldsFrom', 'copyCodeFrom', 'reuseCode', 'reuseAliases', 'copyFieldsAliases')
REUSABLE = C17.FIELDS + ('message', 'interface')
RICH = {k: dict(KINDS[k]['attrs']) for k in REUSABLE}


def elem(k, name, p, val, reuse=None, over=None):
    d = KINDS[k]
    v = d['props'].get(p, ('', ''))
    a, body = dict(d['attrs']), d['body']
    if len(v) > 2 and isinstance(v[2], dict):
        a.update(v[2])
    if len(v) > 3 and isinstance(v[3], str):
        body = v[3]
    if reuse:
        a = {'reuse': reuse} if k != 'message' else {'reuse': reuse, 'id': a['id']}
        body = ''
    a.update(over or {})
    a['name'] = name
    if k == 'message':
        a['id'] = str({'A': 1, 'B': 2, 'C': 3}[name[0]])
    if p and val is not None:
        a[p] = val
    return '<%s%s>%s</%s>' % (d['tag'], ''.join(' %s="%s"' % x for x in a.items() if x[1] is not None), body, d['tag'])


def build(k, elems):
    d = KINDS[k]
    if k in C17.FIELDS:
        return schema('', '<fields>%s%s%s</fields>' % (C17.G1, d['needs'], ''.join(elems)), version='6')
    return schema('', '<fields>%s</fields>%s%s' % (C17.G1, d['needs'], ''.join(elems)), version='6')


FIXED = {'int': ('type', 'length'), 'enum': ('type', 'length'), 'set': ('type', 'length'), 'float': ('type',)}      # cannot be given again ("cannot be changed after reuse")
ADDS = {'set': ('defaultValue', 'reservedValue'), 'float': ('validFullRange',), 'message': ('constructAsReadCond', 'constructAsValidCond')}   # apply to what is written next to them, or add to what is there
VERSIONS = ('sinceVersion', 'deprecated', 'removed')          # every definition has its own versions
SP = '<special name="S1" val="1" displayName="one"/><special name="S2" val="2" description="two"/>'
# a definition with many parts, parts a reusing definition may add, and the same written in full
PARTS = [
    ('int', 'type="int16" endian="big" length="2" defaultValue="5" scaling="1/2" serOffset="1" units="mm" displayDecimals="2" displayOffset="3" validCheckVersion="true" semanticType="length"', SP + '<validRange value="[0, 10]"/><validValue value="20"/>',
     '<special name="S3" val="3"/>', '<validValue value="30"/>', '<validRange value="[40, 50]"/><special name="S4" val="4"/>'),
    ('int', 'type="uintvar" length="3" nonUniqueSpecialsAllowed="true"', SP, '<special name="S3" val="1"/>', '<validMin value="2"/>'),
    ('float', 'type="double" endian="big" defaultValue="nan" units="sec" displayDecimals="1" validCheckVersion="true"', '<special name="S1" val="1"/><special name="S2" val="inf"/><validRange value="[0, 1.5]"/>', '<special name="S3" val="2.5"/>', '<validValue value="nan"/>'),
    ('enum', 'type="uint16" endian="big" length="2" defaultValue="B" hexAssign="true" nonUniqueAllowed="true"', '<validValue name="A" val="1"/><validValue name="B" val="2" displayName="b"/>', '<validValue name="C" val="2"/>', '<validValue name="D" val="300"/>'),
    ('set', 'length="2" endian="big" defaultValue="true" nonUniqueAllowed="true"', '<bit name="A" idx="0"/><bit name="B" idx="3" defaultValue="false" reserved="true" reservedValue="true"/>', '<bit name="C" idx="5"/>', '<bit name="D" idx="0"/>'),
    ('string', 'defaultValue="abc" encoding="utf"', '<lengthPrefix><int name="p" type="uint16" endian="big"/></lengthPrefix><validValue value="abc"/>', '<validValue value="def"/>', '<displayName value="q"/>'),
    ('data', 'defaultValue="ab"', '<lengthPrefix><int name="p" type="uint16" endian="big"/></lengthPrefix><validValue value="ab"/>', '<validValue value="01"/>', '<description value="q"/>'),
    ('list', '', '<element><int name="e" type="uint16" endian="big"/></element><countPrefix><int name="c" type="uint16" defaultValue="3"/></countPrefix><elemLengthPrefix><int name="l" type="uint8"/></elemLengthPrefix>', '<displayName value="q"/>', '<description value="q"/>'),
    ('list', 'elemFixedLength="true"', '<element><int name="e" type="uint16" endian="big"/></element><lengthPrefix value="i1"/><elemLengthPrefix><int name="l" type="uint8"/></elemLengthPrefix>', '<displayName value="q"/>', '<description value="q"/>'),
    ('optional', 'defaultMode="exists" missingOnReadFail="true"', '<field><int name="f" type="uint16" endian="big" defaultValue="3"/></field>', '<displayName value="q"/>', '<missingOnInvalid value="true"/>'),
    ('variant', 'defaultMember="m2"', '<members><int name="m1" type="uint8"/><bundle name="m2"><int name="k" type="uint8" fixedValue="true" defaultValue="7"/><string name="s"/></bundle></members>', '<displayName value="q"/>', '<description value="q"/>'),
    ('bitfield', 'endian="big"', '<members><int name="m1" type="uint8" bitLength="3" defaultValue="2"/><enum name="m2" type="uint8" bitLength="5"><validValue name="A" val="1"/></enum></members><validCond value="$m1 = 2"/>', '<displayName value="q"/>', '<description value="q"/>'),
    ('bundle', '', '<members><int name="m1" type="uint8"/><string name="m2" length="3"/><optional name="m3" defaultMode="missing"><field value="i1"/><cond value="$m1 = 1"/></optional></members><validCond><and><validCond value="$m1 != 0"/><validCond value="$m1 = 9"/></and></validCond>'.replace('<validCond value="$m1 = 9"/>', '<validCond value="$m1 != 9"/>') if False else
     '<members><int name="m1" type="uint8"/><string name="m2" length="3"/><optional name="m3" defaultMode="missing"><field value="i1"/><cond value="$m1 = 1"/></optional></members><alias name="al" field="$m1"/>', '<displayName value="q"/>', '<description value="q"/>'),
    ('ref', 'field="i2" displayName="q"', '', '<description value="q"/>', '<displayName value="r"/>'),
    ('message', 'displayName="d" order="2" platforms="+P1" sender="client" customizable="true" readCond="%f1 = 1" validCond="$m1 = 1"', '<fields><int name="m1" type="uint8"/><bundle name="b"><int name="x" type="uint16"/><string name="y"/></bundle></fields><alias name="al" field="$m1"/>', '<description value="q"/>', '<fields><int name="m9" type="uint8"/></fields>'),
    ('interface', 'description="d"', '<fields><int name="m1" type="uint8"/><bundle name="b"><int name="x" type="uint16"/><string name="y"/></bundle></fields><alias name="al" field="$m1"/>', '<description value="q"/>', '<fields><int name="m9" type="uint8"/></fields>'),
]


def parts_of(i, name, reuse, add):
    k, attrs, body = PARTS[i][:3]
    a = ('reuse="%s"' % reuse) if reuse else attrs
    if k == 'message':
        a += ' id="%d"' % {'A': 1, 'B': 2, 'C': 3}[name]
    if reuse:
        return '<%s name="%s" %s>%s</%s>' % (k, name, a, add, k)
    if '<fields>' in add:
        m = re.search('<fields>(.*)</fields>', add)
        body, add = body.replace('</fields>', m.group(1) + '</fields>'), add.replace(m.group(0), '')
    for x in ('displayName', 'description'):
        if '<%s ' % x in add:
            a = re.sub(r'(^| )%s="[^"]*"' % x, '', a)
    return '<%s name="%s" %s>%s%s</%s>' % (k, name, a, body, add, k)


def reuse_cases(rng, tier):
    for k in REUSABLE:
        for p, v in [('', ('', ''))] + list(KINDS[k]['props'].items()):
            if p in NEVER or p == 'id' or k in C17.FIELDS and p in VERSIONS or k == 'message' and p in VERSIONS:
                continue
            for i in (0, 1):
                x, y = v[i], v[1 - i]
                ax, cy = elem(k, 'A', p, x), elem(k, 'C', p, y)
                yield ('S', build(k, [ax, cy]), (k, p, i, 'base'))
                yield ('S', build(k, [ax, elem(k, 'B', '', None, 'A'), cy]), (k, p, i, 'same'))
                if p and p not in FIXED.get(k, ()) + ADDS.get(k, ()):
                    yield ('S', build(k, [ax, elem(k, 'B', p, y, 'A'), cy]), (k, p, i, 'redefined'))
    for i, x in enumerate(PARTS):
        for j, add in enumerate(('',) + x[3:] + (x[3] + x[4],)):
            for en in ('', 'big'):
                f = lambda e: build(x[0], e) if not en else re.sub('<schema (?:(.*?) )?endian="[a-z]*"', r'<schema \1 endian="big"', build(x[0], e))
                ax, cy = parts_of(i, 'A', '', ''), parts_of(i, 'C', '', add)
                yield ('S', f([ax, cy]), (x[0], (i, en), j, 'base'))
                yield ('S', f([ax, parts_of(i, 'B', 'A', add), cy]), (x[0], (i, en), j, 'redefined'))
                yield ('S', f([ax, parts_of(i, 'B', 'A', add).replace('"B"', '"B"'), cy, ax.replace('"A"', '"Z"').replace('id="1"', 'id="9"')]), (x[0], (i, en), j, 'redefined'))


STRIP = ('name', 'pos', 'attrs', 'id')


def find(o, k, name):
    ns = o['schemas'][0]['ns'][0]
    key = 'fields' if k in C17.FIELDS else 'msgs' if k == 'message' else 'ifaces'
    for x in ns[key]:
        if x['name'] == name:
            return x
    return None


def flat(x, name, drop=('ovr', 'ccf')):
    """the definition without its own name"""
    def rec(y, top):
        if isinstance(y, dict):
            return {a: rec(b, False) for a, b in y.items() if a not in ('pos', 'attrs') and not (top and a in ('name', 'id', 'ref') + drop)}
        if isinstance(y, list):
            return [rec(z, False) for z in y]
        return y
    return rec(x, True)


def diff(a, b, path=''):
    if type(a) != type(b):
        return path
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return path + '.' + k
            d = diff(a[k], b[k], path + '.' + k)
            if d:
                return d
        return ''
    if isinstance(a, list):
        if len(a) != len(b):
            return path + '#'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + '[%d]' % i)
            if d:
                return d
        return ''
    return '' if a == b else path + ':%s/%s' % (a, b)


# ------------------------------------------------------------------ the real parser: what a path resolves to
NSN = ('a', 'b', 'ab', 'A')
DEFN = ('x', 'y', 'a', 'b', 'X', 'xy')
CAT = {'int': 'f', 'enum': 'f', 'bundle': 'f', 'string': 'f', 'message': 'm', 'interface': 'i'}
USES = {'ref': 'f', 'reuse-int': 'f', 'reuse-enum': 'f', 'reuse-bundle': 'f', 'elem': 'f', 'opt': 'f', 'len': 'f', 'value': 'f', 'size': 'f', 'msg-reuse': 'm', 'msg-copy': 'm', 'if-reuse': 'i', 'if-copy': 'i'}


def low(n):
    """names of one namespace are compared without the case of their first letter"""
    return n[:1].lower() + n[1:]


class Tree:
    """files holding definitions and references, and what each reference is to find (in the order of the text)"""

    def __init__(t, rng, bad):
        t.rng, t.uid, t.files, t.order, t.defs, t.spaces, t.uses = rng, 0, [], [], {}, set(), []
        names = rng.choice((['S'], ['S'], ['S', 'S'], ['S', 'T'], ['S', 'T', 'S'], ['S', 'T', 'ST']))
        t.paths = [p for p in t.allpaths()]
        total = rng.randrange(4, 14)
        t.badat = rng.randrange(1, total) if bad else -1
        t.count, t.expect = 0, True
        for i, n in enumerate(names):
            t.schema = n
            if n not in t.order:
                t.order.append(n)
            body = t.items((), max(2, total // len(names)), 0)
            endian = {'S': 'little', 'T': 'big', 'ST': 'little'}[n]
            t.files.append('<?xml version="1.0" encoding="UTF-8"?>\n<schema name="%s" id="1" endian="%s">\n%s</schema>\n' % (n, endian, body))
        t.text = '\x1e'.join(t.files)

    @staticmethod
    def allpaths():
        for a in NSN:
            yield (a,)
            for b in NSN:
                yield (a, b)

    def items(t, ns, n, depth):
        out = ''
        while n > 0:
            k = t.rng.random()
            if k < .35 and depth < 2:
                m = t.rng.choice(NSN)
                t.spaces.add((t.schema, ns + (m,)))
                w = t.rng.randrange(1, max(2, n))
                out += '<ns name="%s">%s</ns>\n' % (m, t.items(ns + (m,), w, depth + 1))
                n -= w
            elif k < .68:
                out += t.define(ns)
                n -= 1
            else:
                out += t.use(ns)
                n -= 1
        return out

    def define(t, ns):
        kind = t.rng.choice(('int', 'int', 'enum', 'bundle', 'string', 'message', 'interface'))
        name = t.rng.choice(DEFN)
        key = (t.schema, ns, CAT[kind], low(name))
        if key in t.defs:
            if not (t.badat > 0 and t.rng.random() < .2):
                return ''
            t.expect = False
        t.uid += 1
        u = t.uid
        t.defs.setdefault(key, (kind, u))
        d = 'name="%s" description="uid%d"' % (name, u)
        if kind == 'int':
            return '<fields><int %s type="uint16" defaultValue="%d"/></fields>' % (d, u)
        if kind == 'enum':
            return '<fields><enum %s type="uint16"><validValue name="V" val="%d"/></enum></fields>' % (d, u)
        if kind == 'bundle':
            return '<fields><bundle %s><int name="m" type="uint8" description="uid%d"/></bundle></fields>' % (d, u)
        if kind == 'string':
            return '<fields><string %s/></fields>' % d
        f = '<fields><int name="m" type="uint8" description="uid%d"/></fields>' % u
        if kind == 'message':
            return '<message %s id="%d">%s</message>' % (d, 1000 + u, f)
        return '<interface %s>%s</interface>' % (d, f)

    def find(t, path, cat):
        """the definition a path names: the schema, the namespaces from its root, the name"""
        sch, p = t.schema, path
        if p.startswith('@'):
            if '.' not in p:
                return None
            sch, p = p[1:].split('.', 1)
            if sch not in t.order or t.order.index(sch) > t.order.index(t.schema):
                return None
        c = p.split('.')
        return t.defs.get((sch, tuple(c[:-1]), cat, low(c[-1])))

    def use(t, ns):
        use = t.rng.choice(tuple(USES))
        cats = {'msg-copy': 'mf', 'if-copy': 'if'}.get(use, USES[use])
        def fits(d):
            kind = d[0]
            if use.startswith('reuse-'):
                return kind == use[6:]
            if use in ('len', 'size', 'value'):
                return kind == 'int'
            if use in ('msg-copy', 'if-copy') and kind not in ('message', 'interface'):
                return kind == 'bundle'
            return True

        def resolve(path):
            for c in cats:
                d = t.find(path, c)
                if d:
                    return d if fits(d) else None
            return None
        t.count += 1
        bad = t.count == t.badat
        # candidates: every path made of known namespaces and names
        cand = []
        for (s, n, c, m) in t.defs:
            p = '.'.join(n + (m,))
            if s == t.schema:
                cand.append(p)
            cand.append('@%s.%s' % (s, p))
        if not bad:
            cand = [p for p in cand if resolve(p)]
            if not cand:
                return ''
            path = t.rng.choice(cand)
        else:
            more = []
            for p in cand + ['x', 'a.x']:
                more += ['a.' + p, p + '.x', p.split('.')[-1], '.'.join(p.split('.')[1:]) or 'y', '@S.' + p, '@T.' + p, p.upper(), p.replace('.', '..'), '.' + p, p + '.', '@' + p, '.'.join(p.split('.')[:-1] + [p.split('.')[-1].swapcase()]), '.'.join(p.split('.')[:-1] + [p.split('.')[-1].capitalize()]), p + ' ' + p, p.replace('@', '@@'), p.replace('.x', '.xy'), p.replace('a.', 'A.'), p.replace('ab.', 'a.b.')]
                if ns:
                    more.append('.'.join(ns) + '.' + p)
            path = t.rng.choice(cand + more)
            if use == 'value' and (path.startswith('@') or path.endswith('V') or not resolve(path)):
                use, cats = 'ref', 'f'
        d = resolve(path)
        if d is None and use in ('len', 'size', 'value') and t.find(path, 'f'):
            return ''                           # which kinds fit is not the question here
        t.uid += 1
        name = 'u%d' % t.uid
        if d is None:
            t.expect = False
        t.uses.append((name, use, d, path))
        f = {'ref': '<ref name="%s" field="%s"/>', 'reuse-int': '<int name="%s" reuse="%s"/>', 'reuse-enum': '<enum name="%s" reuse="%s"/>', 'reuse-bundle': '<bundle name="%s" reuse="%s"/>',
             'elem': '<list name="%s" element="%s" count="2"/>', 'opt': '<optional name="%s" field="%s"/>', 'len': '<string name="%s" lengthPrefix="%s"/>', 'value': '<int name="%s" type="uint32" defaultValue="%s"/>'}.get(use)
        if f:
            return '<fields>%s</fields>' % (f % (name, path))
        return {'msg-reuse': '<message name="%s" reuse="%s" id="{}"/>', 'msg-copy': '<message name="%s" copyFieldsFrom="%s" id="{}"/>', 'if-reuse': '<interface name="%s" reuse="%s"/>', 'if-copy': '<interface name="%s" copyFieldsFrom="%s"/>',
                'size': '<frame name="%s"><size name="z" field="%s"/><payload name="p"/></frame>'}[use].format(1000 + t.uid) % (name, path)


def resolution_cases(rng, tier):
    for i in range(2500 if tier == 'quick' else 12000):
        t = Tree(rng, i % 2)
        if t.uses:
            yield ('S', t.text, ('res', t.expect, t.uses))


def chain_cases():
    """the code of a definition is reused by the definition asking for it, whatever the reused one does"""
    for k in REUSABLE:
        for code in itertools.product(('', 'true', 'false'), repeat=3):
            names, es, want = 'ABCD', [elem(k, 'A', '', None)], [('A', '')]
            for i, x in enumerate(code):
                nm, of = names[i + 1], names[i]
                e = elem(k, nm if k != 'message' else 'B', '', None, of, {'reuseCode': x} if x else {})
                if k == 'message':
                    e = e.replace('name="B"', 'name="%s"' % nm).replace('id="2"', 'id="%d"' % (i + 2))
                es.append(e)
                want.append((nm, of if x == 'true' else ''))
            yield ('S', build(k, es), ('chain', k, want))


def cases(rng, tier):
    yield from chain_cases()
    yield from reuse_cases(rng, tier)
    yield from resolution_cases(rng, tier)


def named(x, name):
    if isinstance(x, dict):
        if x.get('name') == name:
            return x
        for y in x.values():
            r = named(y, name)
            if r is not None:
                return r
    elif isinstance(x, list):
        for y in x:
            r = named(y, name)
            if r is not None:
                return r
    return None


def defined(x, desc):
    if isinstance(x, dict):
        if x.get('desc') == desc and not str(x.get('name'))[0] in 'um':
            return x
        x = list(x.values())
    for y in x if isinstance(x, list) else ():
        r = defined(y, desc)
        if r is not None:
            return r
    return None


def judge(c, o):
    if c[2][0] == 'chain' and isinstance(o, dict) and 'crash' not in o:
        if not o.get('valid'):
            return 'chain', 'a chain of %ss reusing each other is rejected: %s' % (c[2][1], (o.get('msgs') or ['?'])[0])
        for nm, want in c[2][2]:
            x = find(o, c[2][1], nm)
            if x is None or x.get('ccf', '') != want:
                return 'code', 'the code of "%s" is used for the %s %s, not that of "%s"' % (x and x.get('ccf'), c[2][1], nm, want)
        return None
    if c[2][0] != 'res' or not isinstance(o, dict) or 'crash' in o:
        return None
    ex, uses = c[2][1:]
    if bool(o.get('valid')) != ex:
        if ex:
            return 'found', 'every reference names an earlier definition, rejected: %s' % (o.get('msgs') or ['?'])[0]
        return 'not-found', 'a reference names no earlier definition of its kind, accepted: %s' % ', '.join('%s "%s"' % (u[1], u[3]) for u in uses if u[2] is None)
    if not ex:
        return None
    for name, use, d, path in uses:
        x = named(o['schemas'], name)
        if x is None:
            return 'lost', 'the definition %s is not reported' % name
        if use == 'value':
            got = {x.get('def')}
            want = {str(d[1])}
        else:
            got = set(re.findall(r'uid(\d+)', repr({k: v for k, v in x.items()})))
            want = {str(d[1])}
        if got != want:
            return 'which', '%s "%s" resolves to definition %s instead of %s' % (use, path, sorted(map(str, got)), sorted(want))
        if use.endswith('reuse') or use.startswith('reuse'):
            e = defined(o['schemas'], 'uid%d' % d[1])
            r = diff(flat(e, ''), flat(x, ''))
            if r:
                return 'same', '%s "%s": the reusing definition differs: %s' % (use, path, r)
    return None


def judge_all(pairs):
    out, base = [], {}
    for i, (c, o) in enumerate(pairs):
        if c[2][0] in ('res', 'chain') or not isinstance(o, dict) or 'crash' in o:
            continue
        k, p, j, what = c[2]
        if what == 'base':
            base[k, p, j] = o
            continue
        b = base.get((k, p, j))
        if not b or not b.get('valid'):
            continue
        if not o.get('valid'):
            out.append((i, 'rejected', '%s with %s %s is rejected: %s' % (k, p, what, (o.get('msgs') or ['?'])[0])))
            continue
        for n in 'AC':
            d = diff(flat(find(b, k, n), n, ()), flat(find(o, k, n), n, ()))
            if d:
                out.append((i, 'changed', '%s: reuse changed another definition: %s' % (k, d)))
        d = diff(flat(find(o, k, 'A' if what == 'same' else 'C'), ''), flat(find(o, k, 'B'), ''))
        if d:
            out.append((i, what, '%s with %s (%s): the reusing definition differs: %s' % (k, p, what, d)))
    return out


BOUND = 'reuse of a definition of every kind with every single property defined or redefined, against the same definition written out; random trees of namespaces in one to three schema files (up to depth 3) with references of every kind to earlier, later, absent and differently kinded definitions'
ASSUME = ['a definition of a namespace is recorded before any other refers to it and has no versions of its own (C08); objects for different schemas, namespaces and definitions are different objects',
          'parseClone of a field, condition or alias gives an equal copy (decided by the native corpus within its bound only)',
          'ParseMessageImpl::parseCheckReuse and ParseInterfaceImpl::parseCheckReuse are outside the proof (native corpus only)',
          'the definitions of a namespace are exactly those its insertion functions recorded (native corpus for duplicates)',
          'std::map::find finds a key by the comparator of the map, which is a strict weak order (ParseKeyComp: equal text up to the case of the first letter)']
