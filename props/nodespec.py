"""What the functions reading a value node (special, validValue, bit, validRange) may rely on: the XML tree as a function of the node.

The children of a node, and the properties written in it, are functions of the node; parseChildrenAsProps adds those written as child elements."""
import z3
from irv.contract import Contract, V, get_str, set_str, havoc_typed
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, VV, ObjS, StrS, Forall
from irv import stl, base as B

N = 'commsdsl::parse::'
B64 = z3.BitVecSort(64)
PAIR = ('std::string', 'std::string')
node_props = z3.Function('obs_node_props', ObjS, ObjS)       # the attributes
all_props = z3.Function('obs_all_props', ObjS, ObjS)         # the attributes and the child elements
children = z3.Function('obs_children', ObjS, StrS, ObjS)     # the child elements with a name
children_n = z3.Function('obs_children_n', ObjS, StrS, B64)
props_n = z3.Function('obs_props_n', ObjS, B64)


def put_props(eng, st, p, ident, mod):
    n = props_n(ident)
    st.assume(z3.ULT(n, 1 << 40))
    sid = stl.new_store(eng, st, 'props', stl.node_type(*PAIR), mod, n, ident, 'map', 'std::string', True)
    st.wobj(sid).ext = False
    stl.set_val(eng, st, p, stl.MapV(sid, n))


def ap_node_props(eng, st, args, ins, mod, name):
    i = eng.ident_of(st, args[1])
    st.g['gh:node'] = i
    put_props(eng, st, args[0], node_props(i), mod)
    return [(st, 'ret', None)]


def ap_children_props(eng, st, args, ins, mod, name):
    i = eng.ident_of(st, args[0])
    put_props(eng, st, args[3], all_props(i), mod)
    ok = z3.FreshConst(z3.BoolSort(), 'chprops')
    B.may_report(eng, st, ok)
    return [(st, 'ret', ok)]


def prop_text(node, key):
    """the first text of a property of a node"""
    m = all_props(node)
    kt = SV(key).z()
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), B64)(m, kt)
    return m, idx


def text_of(eng, st, node, key, mod):
    m, idx = prop_text(node, key)
    sid = stl.new_store(eng, st, 'props', stl.node_type(*PAIR), mod, props_n(m), m, 'map', 'std::string', True)
    return get_str(eng, st, stl.idx_ptr(eng, st, sid, idx).add(stl.pair_off2(eng, mod, list(PAIR)))).z()


def count_of(node, key):
    kt = SV(key).z()
    return z3.Function('mapcnt_%s' % kt.sort(), ObjS, kt.sort(), B64)(all_props(node), kt)


def ap_children(eng, st, args, ins, mod, name):
    """the child nodes of a node: any number of existing nodes with a name"""
    from irv.llparse import PTR
    i, k = eng.ident_of(st, args[1]), get_str(eng, st, args[2]).z()
    sid = stl.new_store(eng, st, 'children', '_xmlNode*', mod, children_n(i, k), children(i, k))
    n = st.g[('len', sid)]
    st.assume(z3.ULT(n, 1 << 40))
    v = z3.FreshConst(B64, 'ch')
    p = eng.load(st, stl.idx_ptr(eng, st, sid, v), PTR, mod)
    q = eng.load(st, type(p)(p.obj, p.off).add(16), PTR, mod)
    d = eng.load(st, type(p)(p.obj, p.off).add(64), PTR, mod)
    st.foralls.append(Forall(0, n, v, z3.And(*[z3.Not(bl(x.nul)) for x in (p, q, d)]), [], sid))
    stl.set_val(eng, st, args[0], VV(sid, n))
    return [(st, 'ret', None)]


def ap_extra(eng, st, args, ins, mod, name):
    """unknown attributes and children (kept for the generator's plug-ins, see C17)"""
    if name.find('Attributes') >= 0:
        put_props(eng, st, args[0], z3.FreshConst(ObjS, 'extra'), mod)
    else:
        n = eng.fresh('extra_n', 64)
        st.assume(z3.ULT(n, 1 << 40))
        sid = stl.new_store(eng, st, 'extra', 'std::string', mod, n, z3.FreshConst(ObjS, 'extra'))
        st.wobj(sid).ext = False
        stl.set_val(eng, st, args[0], VV(sid, n))
    return [(st, 'ret', None)]


def ap_versions(eng, st, args, ins, mod, name):
    """the versions written, when consistent (C08)"""
    from irv.llparse import INT
    k = 3 if len(args) == 6 else 2
    for i in (k, k + 1):
        eng.store(st, args[i], eng.fresh('version', 32), INT(32), mod)
    ok = z3.FreshConst(z3.BoolSort(), 'versions')
    st.assume(Implies(ok, z3.ULT(*[bv(eng.load(st, args[i], INT(32), mod), 32) for i in (k, k + 1)])))
    B.may_report(eng, st, ok)
    return [(st, 'ret', ok)]


def ap_out_str(eng, st, args, ins, mod, name):
    """a display name: the text or the value of the string field referred to (C18)"""
    set_str(eng, st, args[2], SV(z3.FreshConst(StrS, 'strvalue')))
    return [(st, 'ret', z3.FreshConst(z3.BoolSort(), 'strvalue_ok'))]


refnum_ok = z3.Function('spec_refnum_ok', ObjS, StrS, z3.BoolSort())
refnum_v = z3.Function('spec_refnum', ObjS, StrS, B64)
refnum_big = z3.Function('spec_refnum_big', ObjS, StrS, z3.BoolSort())


def ap_numeric(eng, st, args, ins, mod, name):
    """the number another definition stands for (a function of the protocol and the text); outputs are written on success"""
    from irv.llparse import INT
    i, s = eng.ident_of(st, args[0]), get_str(eng, st, args[1]).z()
    ok = refnum_ok(i, s)
    old = bv(eng.load(st, args[3], INT(64), mod), 64)
    eng.store(st, args[3], z3.If(ok, refnum_v(i, s), old), INT(64), mod)
    oldb = bl(eng.load(st, args[4], INT(1), mod))
    eng.store(st, args[4], z3.If(ok, refnum_big(i, s), oldb), INT(1), mod)
    return [(st, 'ret', ok)]


def contracts():
    X = N + 'ParseXmlWrap::'
    P = N + 'ParseProtocolImpl::'
    return [
        Contract(X + 'parseGetChildren', apply_fn=ap_children, trusted=True, note='libxml2 tree'),
        Contract(X + 'parseNodeProps', apply_fn=ap_node_props, trusted=True, note='libxml2 tree'),
        Contract(X + 'parseChildrenAsProps', apply_fn=ap_children_props, trusted=True, note='C17'),
        Contract(X + 'parseGetExtraAttributes', apply_fn=ap_extra, trusted=True, note='no effect on the definition (C17)'),
        Contract(X + 'parseGetExtraChildren', apply_fn=ap_extra, trusted=True, note='no effect on the definition (C17)'),
        Contract(X + 'parseGetAndCheckVersions', apply_fn=ap_versions, trusted=True, note='C08'),
        Contract(P + 'parseStrToStringValue', apply_fn=ap_out_str, trusted=True, note='C18'),
        Contract(P + 'parseStrToNumeric', apply_fn=ap_numeric, trusted=True, note='C18'),
    ]


from irv.engine import Houdini


class Growing(Houdini):
    """containers of *this that get one more element with every iteration; f(lp, state): further obligations at the end of an iteration"""

    def __init__(self, cls, members, f):
        Houdini.__init__(self, self.gen)
        self.cls, self.members, self.f = cls, members, f

    def views(self, lp, st):
        return V(lp.eng, st, lp.eng.this_of_run, self.cls, lp.fn.mod)

    def gen(self, lp):
        eng = lp.eng
        counters = []
        for (oid, ck), nv in [(k, v) for k, v in lp.hav.items() if isinstance(k, tuple)]:
            old = lp.st.obj(oid).cells.get(ck)
            if old is None:
                continue
            if isinstance(nv, Ptr) and nv.term is not None and isinstance(old[1], Ptr):
                counters.append((len(counters), bv(eng.pindex(lp.st, old[1]), 64), lambda s, oid=oid, ck=ck: bv(eng.pindex(s, s.obj(oid).cells[ck][1]), 64)))
            elif z3.is_bv(nv) and nv.size() == 64:
                counters.append((len(counters), bv(old[1], 64), lambda s, oid=oid, ck=ck: bv(s.obj(oid).cells[ck][1], 64)))
        cs = []
        for m in self.members:
            n0 = self.views(lp, lp.st)(m).n
            for (k, i0, at) in counters:
                cs.append(((m, k), 'as many elements of %s were added as nodes were read' % m.split('.')[-1], lambda s, m=m, n0=n0, i0=i0, at=at: self.views(lp, s)(m).n - n0 == at(s) - i0))
        return [], cs

    def preserved(self, lp, s2):
        return self.f(lp, s2) + Houdini.preserved(self, lp, s2)


def growing(cls, members, f):
    def spec(eng, st, fn, blk):
        sp = eng.__dict__.setdefault('_growing', {})
        if (fn.name, blk) not in sp:
            sp[(fn.name, blk)] = Growing(cls, members, f)
        return sp[(fn.name, blk)]
    return spec
