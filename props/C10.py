"""C10: only valid names are accepted and siblings have distinct names."""
import z3
from irv.contract import Contract, V
from irv.engine import And, Or, Not, Implies, bl, bv, SV, schr
from irv.stl import chars_obj, inst
from irv import base as B
from irv.xml import schema, parse_field, el
from props import intspec as S, textspec as T

N = 'commsdsl::parse::'
C = N + 'common::'
SRCS = ['parse/ParseMessageImpl.cpp', 'parse/ParseInterfaceImpl.cpp', 'parse/ParseFrameImpl.cpp', 'parse/ParseLayerImpl.cpp', 'parse/ParseAliasImpl.cpp', 'parse/ParseNamespaceImpl.cpp']
B64 = z3.BitVecSort(64)
FALSE = z3.BoolVal(False)
us = z3.BitVecVal(ord('_'), 8)
dot = z3.BitVecVal(ord('.'), 8)


def alpha(c):
    return z3.Or(T.between(c, 'a', 'z'), T.between(c, 'A', 'Z'))


def head(c):
    return z3.Or(alpha(c), c == us)


def good(c):
    return z3.Or(head(c), T.between(c, '0', '9'))


def name_ens(cx):
    sv = cx.str_arg(0)
    L = T.length(cx, sv)
    ok = And(L != 0, head(cx.eng.char_at(cx.st1, sv, 0)), T.all_chars(cx, sv, 0, L, good, 'namechar'))
    return [('accepted exactly for a letter or underscore followed by letters, digits and underscores', cx.res == ok)]


K = z3.BitVec('ref_position', 64)       # an arbitrary position of the text


def nodots(s, k):
    return z3.Not(z3.And(schr(s, k) == dot, schr(s, k + 1) == dot))


def ref_of(cx, sv, lo, post=True):
    """text from position lo on is a reference name"""
    eng, st = cx.eng, cx.st1
    s = sv.z()
    L = T.length(cx, sv)
    lo = bv(lo, 64)
    sid = chars_obj(eng, st, sv)
    at = lambda i: schr(s, i)
    lo1 = z3.If(z3.And(z3.ULT(lo, L), at(lo) == z3.BitVecVal(ord('@'), 8)), lo + 1, lo)
    adj = T.all_chars(cx, sv, lo1, L - 1, lambda c: True, 'x') if False else None
    b = z3.Function('spec_nodots', type(s.sort()) and s.sort(), B64, B64, z3.BoolSort())(s, lo1, L - 1)
    from irv.engine import Forall
    v = z3.FreshConst(B64, 'cv')
    # b is the truth of 'no two dots follow each other': the arbitrary position stands for a counterexample
    st.assume(z3.Or(b, z3.And(z3.ULE(lo1, K), z3.ULT(K, L - 1), z3.Not(nodots(s, K)))))
    st.foralls.append(Forall(lo1, L - 1, v, z3.Implies(b, nodots(s, v)), [], sid))
    inst(st, sid, K)
    return And(z3.ULT(lo1, L), head(at(lo1)), T.all_chars(cx, sv, lo1, L, lambda c: z3.Or(good(c), c == dot), 'refchar'), at(L - 1) != dot, b)


def ref_arg(cx):
    """(text, position of the first character) of a char pointer argument"""
    p = cx.arg(0)
    o = cx.st0.obj(p.obj)
    return o.data, cx.eng.pindex(cx.st0, p)


def ref_setup(eng, st, b, mod):
    from irv.engine import StrS, Ptr
    sv = SV(z3.Const('ref_text', StrS))
    off = z3.BitVec('ref_begin', 64)
    sid = chars_obj(eng, st, sv)
    b[0] = Ptr(sid, 0, off, 1, False)
    n = bv(eng.str_len(st, sv), 64)
    st.assume(z3.And(z3.ULE(off, n), bv(b[1], 64) == n - off))


def ref_ens(cx):
    sv, lo = ref_arg(cx)
    return [('accepted exactly for names joined by single dots, with an optional schema mark', cx.res == ref_of(cx, sv, lo))]


def ref_loop(eng, st, fn, blk):
    from irv.engine import Houdini, Ptr
    sp = eng.__dict__.setdefault('_houdini', {})
    k = (fn.name, blk)
    if k not in sp:
        def gen(lp):
            cs = []
            for key, v in lp.hav.items():
                if not (isinstance(key, tuple) and isinstance(v, Ptr) and v.obj is not None and lp.sh.obj(v.obj).kind == 'chars'):
                    continue
                sv = lp.sh.obj(v.obj).data
                s = sv.z()
                n = bv(eng.str_len(lp.sh, sv), 64)
                for i in (K, K + 1, bv(eng.pindex(lp.sh, v), 64)):
                    inst(lp.sh, v.obj, i)
                    inst(lp.st, v.obj, i)

                def idx(state, key=key):
                    c = state.obj(key[0]).cells.get(key[1])
                    if c is None or not isinstance(c[1], Ptr):
                        return None
                    return bv(eng.pindex(state, c[1]), 64)
                cs.append(((key, 'in'), 'position within the text', lambda state, i=idx: FALSE if i(state) is None else z3.ULE(i(state), n)))
                cs.append(((key, 'dot'), 'position of a dot or the end', lambda state, i=idx: FALSE if i(state) is None else z3.Or(i(state) == n, schr(s, i(state)) == dot)))
                cs.append(((key, 'adj'), 'no two dots before the position', lambda state, i=idx: FALSE if i(state) is None else z3.Or(z3.ULT(K, z3.BitVec('ref_begin', 64)), z3.UGE(K, i(state)), nodots(s, K))))
            return [], cs
        sp[k] = Houdini(gen)
    return sp[k]


def named(cx, member, written=True, props='m_props'):
    n = cx.new(member)
    out = [('accepted only with a valid name', Implies(cx.res, B.name_ok(n.z()))), S.rejected_reports(cx)]
    if written:
        c, s = S.prop(cx, 'name'), S.prop_str(cx, 'name')
        out.append(('the name is the written one', Implies(And(cx.res, c != 0), n.z() == s)))
        out.append(('a valid name given once is accepted', Implies(And(c == 1, B.name_ok(s)), cx.res)))
    return out


def verify_name(cx):
    n = cx.old('m_state.m_name')
    return [('accepted exactly with a valid name', cx.res == And(T.length(cx, n) != 0, B.name_ok(n.z()))), S.rejected_reports(cx)]


def upd_name(fn, member):
    return Contract(N + fn, requires=B.node_ok, ensures=lambda cx: named(cx, member), modifies=[member], callable=False).logs()


def named_ptr(cx):
    from irv.stl import get_str
    n = get_str(cx.eng, cx.st1, cx.new('m_name')).z()
    c, s = S.prop(cx, 'name'), S.prop_str(cx, 'name')
    return [('accepted only with a valid name', Implies(cx.res, B.name_ok(n))), S.rejected_reports(cx),
            ('the name is the written one', Implies(And(cx.res, c != 0), n == s)),
            ('a valid name given once is accepted', Implies(And(c == 1, B.name_ok(s)), cx.res))]


def ptr_pre(cx):
    return B.node_ok(cx) + [('the name points to a text', Not(bl(cx.old('m_name').nul)))]


I, J = z3.BitVec('first_member', 64), z3.BitVec('second_member', 64)      # two arbitrary members


def member_name(eng, st, args0, mod, i):
    from irv.contract import load_typed
    v = load_typed(eng, st, args0, 'std::vector<std::unique_ptr<commsdsl::parse::ParseFieldImpl> >', mod)
    v.inst(i)
    return V(eng, st, v[i], N + 'ParseFieldImpl', mod)('m_state.m_name'), v


def members_pre(cx):
    n, v = member_name(cx.eng, cx.st0, cx.arg(0), cx.mod, I)
    member_name(cx.eng, cx.st0, cx.arg(0), cx.mod, J)
    return [('no null member', And(*[Implies(z3.ULT(i, v.n), Not(bl(v[i].nul))) for i in (I, J)]))]


def members_ens(cx):
    a, v = member_name(cx.eng, cx.st1, cx.arg(0), cx.mod, I)
    b, v = member_name(cx.eng, cx.st1, cx.arg(0), cx.mod, J)
    return [('accepted only when no two members share a name', Implies(And(cx.res, z3.ULT(I, J), z3.ULT(J, v.n)), a.z() != b.z())), S.rejected_reports(cx)]


def members_loop(eng, st, fn, blk):
    from irv.engine import Houdini, Ptr
    from irv import stl
    sp = eng.__dict__.setdefault('_houdini', {})
    k = (fn.name, blk)
    if k not in sp:
        def gen(lp):
            cs = []
            a, v = member_name(eng, lp.st, lp.regs_arg(0), fn.mod, I)
            b, v = member_name(eng, lp.st, lp.regs_arg(0), fn.mod, J)
            a1, _ = member_name(eng, lp.sh, lp.regs_arg(0), fn.mod, I)
            b1, _ = member_name(eng, lp.sh, lp.regs_arg(0), fn.mod, J)
            sets = [key for key, x in lp.hav.items() if isinstance(x, stl.MapV)]
            its = [key for key, x in lp.hav.items() if isinstance(x, Ptr) and x.obj == v.v.store]

            def get(state, key):
                c = state.obj(key[0]).cells.get(key[1]) if key[0] in state.mem else None
                return None if c is None else c[1]
            for it in its:
                def pos(state, it=it):
                    p = get(state, it)
                    return bv(eng.pindex(state, p), 64) if isinstance(p, Ptr) and p.obj == v.v.store else None

                def distinct(state, pos=pos):
                    p = pos(state)
                    return FALSE if p is None else z3.Implies(z3.And(z3.ULT(I, J), z3.ULT(J, p)), a.z() != b.z())
                cs.append(((it, 'distinct'), 'the members so far have distinct names', distinct))
                for m in sets:
                    def has(state, pos=pos, m=m):
                        p, s = pos(state), get(state, m)
                        if p is None or not isinstance(s, stl.MapV):
                            return FALSE
                        return z3.Implies(z3.ULT(I, p), bl(stl.present(eng, state, s, 'std::string', a, fn.mod)))
                    cs.append(((it, m, 'has'), 'the names so far are recorded', has))
            return [], cs
        sp[k] = Houdini(gen)
    return sp[k]


def lazify(cls, parsed=None, must=None):
    """apply: *this becomes an arbitrary object of the class (constructor, or a parse() that reports every rejection; C16)"""
    from irv.engine import Ptr, ObjS

    def ap(eng, st, args, ins, mod, name):
        p = args[0]
        if p.obj is None or p.off or p.term is not None:
            from irv.engine import Unsupported
            raise Unsupported('parse of a part of an object')
        o = st.wobj(p.obj)
        o.cells, o.ident, o.kind, o.cls, o.written, o.ext = {}, z3.FreshConst(ObjS, 'parsed'), 'lazy', cls, frozenset(), False
        if parsed is None:
            return [(st, 'ret', None)]
        if 'm_node' in str(getattr(eng.prog.layouts.get(cls), 'f', '')):
            st.assume(alive(eng, st, Ptr(p.obj), cls, mod))
        r = z3.FreshConst(z3.BoolSort(), 'parsed')
        e1 = z3.FreshConst(z3.BoolSort(), 'err')
        g0 = st.g.get('gh:err', False)
        st.assume(z3.Implies(z3.Or(bl(g0), z3.Not(r)), e1))
        st.g['gh:err'] = e1
        st.assume(z3.Implies(r, B.name_ok(parsed(V(eng, st, p, cls, mod)).z())))
        return [(st, 'ret', r)]
    return ap


def parsed_of(cls, ptr=False):
    from irv.stl import get_str
    def at(v):
        p = v('m_name')
        v.st.assume(z3.Not(bl(p.nul)))
        return get_str(v.eng, v.st, p)
    member = at if ptr else (lambda v: v('m_state.m_name'))
    return [Contract(N + cls + '::' + cls, apply_fn=lazify(N + cls), trusted=True, note='any object of the class'),
            Contract(N + cls + '::parse', apply_fn=lazify(N + cls, member), trusted=True, note='the name was verified (this property) and a rejection is reported (C16)')]


def alive(eng, st, e, cls, mod):
    """an element exists and has an XML node of a document"""
    from irv.llparse import PTR
    raw = lambda p: type(p)(p.obj, p.off)
    node = V(eng, st, raw(e), cls, mod)('m_node')
    doc = eng.load(st, raw(node).add(64), PTR, mod)
    return z3.And(z3.Not(bl(e.nul)), z3.Not(bl(node.nul)), z3.Not(bl(doc.nul)))


def all_elements(view, member, cls, pair=True):
    """data structure invariant of a container of elements: each exists and has an XML node of a document"""
    from irv.engine import Forall
    q = view(member)
    v = z3.FreshConst(B64, 'el')
    e = q[v][1]() if pair else q[v]
    view.st.foralls.append(Forall(0, q.n, v, alive(view.eng, view.st, e, cls, view.mod), [], q.v.store))


def holds_elements(member, cls):
    def f(cx):
        all_elements(cx.old, member, N + cls)
        return []
    return f


def ap_children(eng, st, args, ins, mod, name):
    """the child nodes of a node: any number of existing nodes with a name"""
    from irv import stl
    from irv.engine import Forall, ObjS, VV
    from irv.llparse import PTR
    sid = stl.new_store(eng, st, 'children', '_xmlNode*', mod, eng.fresh('children_n', 64), z3.FreshConst(ObjS, 'children'))
    n = st.g[('len', sid)]
    st.assume(z3.ULT(n, 1 << 40))
    v = z3.FreshConst(B64, 'ch')
    p = eng.load(st, stl.idx_ptr(eng, st, sid, v), PTR, mod)
    q = eng.load(st, type(p)(p.obj, p.off).add(16), PTR, mod)
    d = eng.load(st, type(p)(p.obj, p.off).add(64), PTR, mod)
    st.foralls.append(Forall(0, n, v, z3.And(*[z3.Not(bl(x.nul)) for x in (p, q, d)]), [], sid))
    stl.set_val(eng, st, args[0], VV(sid, n))
    return [(st, 'ret', None)]


def ap_create(eng, st, args, ins, mod, name):
    """a new field object of some kind, or none"""
    from irv.engine import Ptr, ObjS
    from irv.llparse import PTR
    oid = eng.lazy_obj(st, z3.FreshConst(ObjS, 'newfield'), N + 'ParseFieldImpl', 'newfield')
    eng.store(st, args[0], Ptr(oid, 0, nul=z3.FreshConst(z3.BoolSort(), 'nofield')), PTR, mod)
    return [(st, 'ret', None)]


class EachIteration:
    """obligations at the end of every iteration (state at its beginning, state at its end)"""

    def __init__(self, f, assume=None):
        self.f, self.a = f, assume

    def assume(self, lp):
        if self.a:
            self.a(lp)

    def entry(self, lp):
        return []

    def preserved(self, lp, s2):
        return self.f(lp, s2)


def field_loop(eng, st, fn, blk):
    def f(lp, s2):
        this = lp.regs[fn.params[0][0]]
        a = V(eng, lp.sh, this, N + 'ParseNamespaceImpl', fn.mod)('m_fields').n
        b = V(eng, s2, this, N + 'ParseNamespaceImpl', fn.mod)('m_fields').n
        return [('an accepted field is one more field of the namespace', b == a + 1)]
    return EachIteration(f, lambda lp: all_elements(V(eng, lp.sh, lp.regs[fn.params[0][0]], N + 'ParseNamespaceImpl', fn.mod), 'm_fields', N + 'ParseFieldImpl'))


def insert_alive(eng, st, c, m, key, src):
    from irv.llparse import PTR
    return [('only existing elements are recorded', alive(eng, st, eng.load(st, src, PTR, c.mod), N + 'ParseFieldImpl', c.mod))]


def grows(member):
    def f(cx):
        n0, n1 = cx.old(member).n, cx.new(member).n
        return [('an accepted element is one more element of its kind', Implies(cx.res, n1 == n0 + 1)),
                ('a rejected element is not recorded', Implies(Not(cx.res), n1 == n0)), S.rejected_reports(cx)]
    return f


def alias_lists(cx, st):
    from irv.contract import load_typed
    return [load_typed(cx.eng, st, cx.arg(i), 'std::vector<std::unique_ptr<%s%s> >' % (N, c), cx.mod) for i, c in ((0, 'ParseAliasImpl'), (1, 'ParseFieldImpl'))]


def alias_pre(cx):
    out = B.node_ok(cx) + [('the alias has a name', T.length(cx, cx.old('m_state.m_name')) != 0)]
    from irv.engine import Forall
    for q, c in zip(alias_lists(cx, cx.st0), ('ParseAliasImpl', 'ParseFieldImpl')):
        v = z3.FreshConst(B64, 'el')
        e = q[v]
        nm = V(cx.eng, cx.st0, type(e)(e.obj, e.off), N + c, cx.mod)('m_state.m_name')
        cx.st0.foralls.append(Forall(0, q.n, v, z3.And(z3.Not(bl(e.nul)), bv(cx.eng.str_len(cx.st0, nm), 64) != 0), [], q.v.store))
        q.inst(I)
    return out


def alias_ens(cx):
    out = [S.rejected_reports(cx)]
    a = cx.old('m_state.m_name')
    for q, c in zip(alias_lists(cx, cx.st1), ('ParseAliasImpl', 'ParseFieldImpl')):
        e = q[I]
        nm = V(cx.eng, cx.st1, type(e)(e.obj, e.off), N + c, cx.mod)('m_state.m_name')
        out.append(('accepted only when no %s has the same name' % ('alias' if 'Alias' in c else 'field'), Implies(And(cx.res, z3.ULT(I, q.n)), a.z() != nm.z())))
    return out


def contracts():
    return parsed_of('ParseMessageImpl') + parsed_of('ParseInterfaceImpl') + parsed_of('ParseFrameImpl', True) + [
        Contract(N + 'ParseXmlWrap::parseGetChildren', apply_fn=ap_children, trusted=True, note='libxml2 tree'),
        Contract(N + 'ParseFieldImpl::parseCreate', apply_fn=ap_create, trusted=True, note='a new field object or none'),
        Contract(N + 'ParseFieldImpl::parse', apply_fn=lazify(N + 'ParseFieldImpl', lambda v: v('m_state.m_name')), trusted=True, note='a rejection is reported (C16)'),
        Contract(N + 'ParseNamespaceImpl::processMultipleFields', requires=holds_elements('m_fields', 'ParseFieldImpl'), ensures=lambda cx: [S.rejected_reports(cx)], modifies=['m_fields'], callable=False, inserts={'m_fields': insert_alive},
                 loops={N + 'ParseNamespaceImpl::processMultipleFields': field_loop}).logs(),
        Contract(N + 'ParseFieldImpl::parseVerifyAliasedMember', pure='aliased_member', trusted=True, note='C18'),
        Contract(N + 'ParseAliasImpl::parseVerifyAlias', requires=alias_pre, ensures=alias_ens, modifies=[], callable=False).logs(),
        Contract(N + 'ParseNamespaceImpl::processMessage', requires=holds_elements('m_messages', 'ParseMessageImpl'), ensures=grows('m_messages'), modifies=['m_messages'], callable=False).logs(),
        Contract(N + 'ParseNamespaceImpl::processInterface', requires=holds_elements('m_interfaces', 'ParseInterfaceImpl'), ensures=grows('m_interfaces'), modifies=['m_interfaces'], callable=False).logs(),
        Contract(N + 'ParseNamespaceImpl::processFrame', requires=holds_elements('m_frames', 'ParseFrameImpl'), ensures=grows('m_frames'), modifies=['m_frames'], callable=False).logs(),
        Contract(N + 'ParseFrameImpl::parseUpdateName', requires=ptr_pre, ensures=named_ptr, modifies=['m_name'], callable=False).logs(),
        Contract(N + 'ParseLayerImpl::parseUpdateName', requires=ptr_pre, ensures=named_ptr, modifies=['m_name'], callable=False).logs(),
        Contract(N + 'ParseFieldImpl::parseValidateMembersNames', sig='ParseLogger', requires=members_pre, ensures=members_ens, modifies=[], callable=False, loops={N + 'ParseFieldImpl::parseValidateMembersNames': members_loop}).logs(),
        Contract(N + 'ParseFieldImpl::parseVerifyName', requires=B.node_ok, ensures=verify_name, modifies=[], callable=False).logs(),
        upd_name('ParseMessageImpl::parseUpdateName', 'm_state.m_name'),
        upd_name('ParseInterfaceImpl::parseUpdateName', 'm_state.m_name'),
        Contract(C + 'parseIsValidRefName', sig='char const*', label=C + 'parseIsValidRefName(buffer)', ensures=ref_ens, modifies=[], setup=ref_setup, callable=False, loops={C + 'parseIsValidRefName': ref_loop}),
        Contract(C + 'parseIsValidName', ensures=name_ens, modifies=[], callable=False),
    ]


# ------------------------------------------------------------------ replay corpus
import re
NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z', re.A)
REF = re.compile(r'@?[A-Za-z_][A-Za-z0-9_]*(\.[A-Za-z0-9_]+)*\Z', re.A)
BOUND = 'about 60 valid and invalid names in each of 15 places where an element is named; pairs of equal and of different sibling names of every kind, in one and in merged namespaces, bare and with other attributes; references to enumerators'


def uint(name, **kw):
    return el('int', dict(name=name, type='uint8', **kw))


def frame(name, layers=('L1', 'L2')):
    return el('frame', dict(name=name), el('layers', {}, el('size', dict(name=layers[0]), el('field', {}, uint('Sz'))) + el('payload', dict(name=layers[1]))))


def nested(body):
    return el('bundle', dict(name='bnd'), body)


# place -> (schema text with the names a, b in it, how to find them in the observation)
SINGLE = {
    'field': (lambda n: schema(uint(n)), lambda o: parse_field(o)['name']),
    'member': (lambda n: schema(nested(uint(n))), lambda o: parse_field(o)['members'][0]['name']),
    'bitmember': (lambda n: schema(el('bitfield', dict(name='x'), uint(n, bitLength=8))), lambda o: parse_field(o)['members'][0]['name']),
    'variantmember': (lambda n: schema(el('variant', dict(name='x'), uint(n))), lambda o: parse_field(o)['members'][0]['name']),
    'message': (lambda n: schema('', el('message', dict(name=n, id=1))), lambda o: o['schemas'][0]['ns'][0]['msgs'][0]['name']),
    'msgfield': (lambda n: schema('', el('message', dict(name='m', id=1), uint(n))), lambda o: o['schemas'][0]['ns'][0]['msgs'][0]['fields'][0]['name']),
    'interface': (lambda n: schema('', el('interface', dict(name=n), uint('x'))), lambda o: o['schemas'][0]['ns'][0]['ifaces'][0]['name']),
    'ifacefield': (lambda n: schema('', el('interface', dict(name='x'), uint(n))), lambda o: o['schemas'][0]['ns'][0]['ifaces'][0]['fields'][0]['name']),
    'frame': (lambda n: schema('', frame(n)), lambda o: o['schemas'][0]['ns'][0]['frames'][0]['name']),
    'layer': (lambda n: schema('', frame('F', ('other', n))), lambda o: o['schemas'][0]['ns'][0]['frames'][0]['layers'][-1]['name']),
    'ns': (lambda n: schema('', el('ns', dict(name=n), el('fields', {}, uint('x')))), lambda o: [x for x in o['schemas'][0]['ns'] if x['name']][0]['name']),
    'subns': (lambda n: schema('', el('ns', dict(name='top'), el('ns', dict(name=n), el('fields', {}, uint('x'))))), lambda o: [x for x in o['schemas'][0]['ns'] if x['name']][0]['ns'][0]['name']),
    'value': (lambda n: schema(el('enum', dict(name='x', type='uint8'), el('validValue', dict(name=n, val=1)))), lambda o: parse_field(o)['values'][0]['name']),
    'bit': (lambda n: schema(el('set', dict(name='x', length=1), el('bit', dict(name=n, idx=1)))), lambda o: parse_field(o)['bits'][0]['name']),
    'special': (lambda n: schema(el('int', dict(name='x', type='uint8'), el('special', dict(name=n, val=1)))), lambda o: parse_field(o)['specials'][0]['name']),
    'fspecial': (lambda n: schema(el('float', dict(name='x', type='double'), el('special', dict(name=n, val='1.0')))), lambda o: parse_field(o)['specials'][0]['name']),
    'alias': (lambda n: schema('', el('message', dict(name='m', id=1), el('fields', {}, uint('target')) + el('alias', dict(name=n, field='$target')))), lambda o: o['schemas'][0]['ns'][0]['msgs'][0]['aliases'][0]['name']),
    'schema': (lambda n: schema(uint('x'), name=n), lambda o: o['schemas'][0]['name']),
}
uint2 = lambda a, b: uint(a) + uint(b)
msg2 = lambda a, b: el('message', dict(name=a, id=1)) + el('message', dict(name=b, id=2))
if2 = lambda a, b: el('interface', dict(name=a), uint('x')) + el('interface', dict(name=b), uint('y'))
wrap = lambda f: lambda a, b: el('ns', dict(name='top'), f(a)) + el('ns', dict(name='top'), f(b))
PAIR = {
    'field': lambda a, b: schema(uint2(a, b)),
    'field apart': lambda a, b: schema(uint(a), el('fields', {}, uint(b))),
    'field merged': lambda a, b: schema('', wrap(lambda n: el('fields', {}, uint(n)))(a, b)),
    'field deep': lambda a, b: schema('', wrap(lambda n: el('ns', dict(name='sub'), el('fields', {}, uint(n))))(a, b)),
    'field kinds': lambda a, b: schema(uint(a) + el('string', dict(name=b, length=3))),
    'member': lambda a, b: schema(nested(uint2(a, b))),
    'member apart': lambda a, b: schema(nested(uint(a) + uint('mid') + uint('mid2') + el('float', dict(name=b, type='float')))),
    'bitmember': lambda a, b: schema(el('bitfield', dict(name='x'), uint(a, bitLength=4) + uint(b, bitLength=4))),
    'variantmember': lambda a, b: schema(el('variant', dict(name='x'), uint2(a, b))),
    'message': lambda a, b: schema('', msg2(a, b)),
    'message wrapped': lambda a, b: schema('', el('messages', {}, msg2(a, b))),
    'message merged': lambda a, b: schema('', el('ns', dict(name='top'), el('message', dict(name=a, id=1))) + el('ns', dict(name='top'), el('message', dict(name=b, id=2)))),
    'msgfield': lambda a, b: schema('', el('message', dict(name='m', id=1), uint2(a, b))),
    'msgfield copied': lambda a, b: schema(el('bundle', dict(name='src'), uint(a)), el('message', dict(name='m', id=1, copyFieldsFrom='src'), uint(b))),
    'interface': lambda a, b: schema('', if2(a, b)),
    'interface wrapped': lambda a, b: schema('', el('interfaces', {}, if2(a, b))),
    'ifacefield': lambda a, b: schema('', el('interface', dict(name='x'), uint2(a, b))),
    'frame': lambda a, b: schema('', frame(a) + frame(b)),
    'frame wrapped': lambda a, b: schema('', el('frames', {}, frame(a) + frame(b))),
    'layer': lambda a, b: schema('', frame('F', (a, b))),
    'value': lambda a, b: schema(el('enum', dict(name='x', type='uint8'), el('validValue', dict(name=a, val=1)) + el('validValue', dict(name=b, val=2)))),
    'bit': lambda a, b: schema(el('set', dict(name='x', length=1), el('bit', dict(name=a, idx=1)) + el('bit', dict(name=b, idx=2)))),
    'special': lambda a, b: schema(el('int', dict(name='x', type='uint8'), el('special', dict(name=a, val=1)) + el('special', dict(name=b, val=2)))),
    'fspecial': lambda a, b: schema(el('float', dict(name='x', type='double'), el('special', dict(name=a, val='1.0')) + el('special', dict(name=b, val='2.0')))),
    'alias': lambda a, b: schema('', el('message', dict(name='m', id=1), el('fields', {}, uint('target')) + el('alias', dict(name=a, field='$target')) + el('alias', dict(name=b, field='$target')))),
    'alias field': lambda a, b: schema('', el('message', dict(name='m', id=1), el('fields', {}, uint(a)) + el('alias', dict(name=b, field='$' + a)))),
    'bundle alias field': lambda a, b: schema(el('bundle', dict(name='m'), el('members', {}, uint(a)) + el('alias', dict(name=b, field='$' + a)))),
}
FREE = {                # same names, different kinds or places: accepted
    'kinds': lambda a: schema(uint(a), el('message', dict(name=a, id=1)) + el('interface', dict(name=a), uint('x')) + frame(a)),
    'places': lambda a: schema(uint(a) + nested(uint(a)), el('ns', dict(name=a), el('fields', {}, uint(a)) + el('ns', dict(name=a), el('fields', {}, uint(a))))),
    'levels': lambda a: schema('', el('message', dict(name='M1', id=1), uint(a)) + el('message', dict(name='M2', id=2), uint(a))),
}
NAMES = ['a', '_', 'Z', 'z9', '_9', 'A_b', 'name1', 'x' * 300, 'CamelCase', '__', 'int', 'z', 'aZ', 'm0', '_Z9z', 'g_0',
         '', '9', '9a', ' a', 'a ', 'a b', 'a-b', 'a.b', 'a,b', '-a', '.', 'a.', '.a', 'a@', '@a', 'a[', '[a', 'a`', '`a', 'a{', '{a', 'a/', 'a:', 'a\tb', 'a\nb', '$a', 'a$', '\u00e9', 'a\u00e9', '\u0430', 'a+', 'a"', "a'", 'a^', '^', '0_', 'a\\', '~a', 'a|b', 'a*']
REFS = ['E.V1', 'E.V2', 'E.1V', 'E', 'E.', '.E', 'E..V1', 'E.V1.', 'E.V-1', 'E .V1', '@E.V1', '@@E.V1', '@.E', '.', '..', '@', 'n1.E.V1', 'n1..E.V1', '9E.V1', 'E.V1 ', ' E.V1', 'E.V9']


EXTRA = ['sinceVersion="2" deprecated="5" removed="true"', 'deprecated="5"', 'sinceVersion="2"', 'displayName="X"', 'customizable="true"', 'pseudo="true"', 'failOnInvalid="true"', 'description="d" semanticType="length"', 'unknownAttr="1"']


def decorate(text, a, b, extra, where):
    """extra attributes for the first (1) or the second (2) element of the pair, or both (3)"""
    text = text.replace('<schema ', '<schema version="9" ')
    sites = [m.start() for m in re.finditer(r'name="(?:%s|%s)"' % (a, b), text)]
    for n, at in reversed(list(enumerate(sites[:2]))):
        # the schema-wide positions of the pair are in the order written
        if where & (1 << n) and not any(k in text[text.rfind('<', 0, at):at] for k in ('semanticType',) if k in extra):
            text = text[:at] + extra + ' ' + text[at:]
    return text


def cases(rng, tier):
    for pl in SINGLE:
        for n in NAMES:
            yield ('S', SINGLE[pl][0](n), ('one', pl, n))
        for _ in range(6 if tier == 'quick' else 200):
            n = ''.join(chr(rng.choice(list(range(33, 127)) + [ord('_')] * 20 + list(range(97, 123)))) for _ in range(rng.randint(1, 5)))
            yield ('S', SINGLE[pl][0](n), ('one', pl, n))
    pairs = [('a', 'a'), ('a', 'A'), ('aB', 'AB'), ('aB', 'ab'), ('ab', 'aB'), ('Abc', 'Abcd'), ('Abcd', 'Abc'), ('abc', 'xbc'), ('_a', '_a'), ('_a', '_A'), ('n1', 'n2'), ('x' * 40, 'x' * 40), ('x' * 40, 'x' * 39 + 'y'), ('Name', 'name')]
    for pl in PAIR:
        for a, b in pairs:
            yield ('S', PAIR[pl](a, b), ('two', pl, a, b))
            if pl != 'alias field' and pl != 'bundle alias field':
                yield ('S', PAIR[pl](b, a), ('two', pl, b, a))
    for pl in PAIR:         # the relation does not depend on the other attributes of the two
        for a, b in (('qq', 'qq'), ('qq', 'Qq'), ('qq', 'qr')):
            for extra in EXTRA:
                for where in (1, 2, 3) if tier != 'quick' else (rng.choice((1, 2)), 3):
                    yield ('S', decorate(PAIR[pl](a, b), a, b, extra, where), ('two', pl, a, b, 'decorated'))
    for k in FREE:
        for a in ('a', 'Same', 'x1'):
            yield ('S', FREE[k](a), ('free', k, a))
    en = el('enum', dict(name='E', type='uint8', ), el('validValue', dict(name='V1', val=1)) + el('validValue', dict(name='V2', val=2)))
    for r in REFS:
        yield ('S', schema(en + el('int', dict(name='i', type='uint8', defaultValue=r)), el('ns', dict(name='n1'), el('fields', {}, en))), ('ref', r))
        yield ('S', schema(el('int', dict(name='i', type='uint8')) + el('ref', dict(name='r', field=r)), ''), ('fref', r))


def judge(c, o):
    i = c[2]
    if i[0] == 'one':
        i = (i[0], i[1], i[2].strip(' \t\n'))
        ok = bool(NAME.match(i[2])) or False
        if not ok:
            return ('name', 'the %s name %r is accepted' % (i[1], i[2])) if o.get('valid') else (None if o.get('errs') else ('silent', 'rejected without an error'))
        if not o.get('valid'):
            return ('rejected', 'the valid %s name %r is rejected: %s' % (i[1], i[2], (o.get('msgs') or [''])[0][-160:]))
        n = SINGLE[i[1]][1](o)
        return None if n == i[2] else ('stored', 'the %s name %r is reported as %r' % (i[1], i[2], n))
    if i[0] == 'two':
        a, b = i[2], i[3]
        same = a == b
        if i[1].split()[0] in ('alias', 'field', 'message', 'interface', 'frame', 'bundle') or i[1] == 'bundle alias field':
            same = a[0].lower() + a[1:] == b[0].lower() + b[1:]
        if same:
            return ('duplicate', 'two siblings (%s) named %r and %r are accepted' % (i[1], a, b)) if o.get('valid') else (None if o.get('errs') else ('silent', 'rejected without an error'))
        if len(i) > 4:
            return None     # the added attributes may be improper there
        return None if o.get('valid') else ('rejected', 'siblings (%s) named %r and %r are rejected: %s' % (i[1], a, b, (o.get('msgs') or [''])[0][-160:]))
    if i[0] == 'free':
        return None if o.get('valid') else ('rejected', 'equal names in different kinds or places (%s) are rejected: %s' % (i[1], (o.get('msgs') or [''])[0][-160:]))
    if i[0] == 'ref':
        want = {'E.V1': 1, 'E.V2': 2, '@E.V1': None, 'E': 0}.get(i[1].strip(), 'no')
        if want == 'no':
            return ('ref', 'the reference %r is accepted' % i[1]) if o.get('valid') else (None if o.get('errs') else ('silent', 'rejected without an error'))
        if want is None:
            return None
        if not o.get('valid'):
            return ('rejected', 'the reference %r is rejected: %s' % (i[1], (o.get('msgs') or [''])[0][-160:]))
        d = int([f for f in o['schemas'][0]['ns'][0]['fields'] if f['name'] == 'i'][0]['def'])
        return None if d == want else ('value', 'the reference %r is %d' % (i[1], d))
    return ('ref', 'the reference %r is accepted' % i[1]) if o.get('valid') else (None if o.get('errs') else ('silent', 'rejected without an error'))


ASSUME = ['the XML node of a parsed object and the document of a node exist (libxml2)', 'parse() of a field or message object is abstracted: it establishes the name contract proved here and its other effects do not concern names']
