"""C19: text, raw data and list sizes are told in one way, and as written."""
import z3
from irv.contract import Contract, V, get_str, set_str, load_typed
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, StrS, ObjS, Houdini, Forall
from irv import stl, base as B
from irv.xml import schema, el
from props import intspec as S, nodespec as X, C10, C13, C05, C06

N = 'commsdsl::parse::'
FLD = N + 'ParseFieldImpl'
K = {k: N + 'Parse%sFieldImpl' % k for k in ('String', 'Data', 'List')}
SRCS = ['parse/ParseField.cpp'] + ['parse/Parse%sImpl.cpp' % x for x in ('StringField', 'DataField', 'ListField', 'RefField')]
LAYOUT_SRCS = SRCS[1:] + ['parse/ParseFieldImpl.cpp']
B64 = z3.BitVecSort(64)
INT, LENGTH = 0, 3
PTR_T, OWN_T = 'const %s*' % FLD, 'std::unique_ptr<%s>' % FLD
raw = lambda p: Ptr(p.obj, p.off)
isnull = lambda p: bl(p.nul) if p.obj is not None or not isinstance(p.nul, bool) else z3.BoolVal(True)
EMPTY = SV('').z()

# ------------------------------------------------------------------ what the surroundings tell
found = z3.Function('obs_found_field', ObjS, StrS, ObjS)
found_no = z3.Function('obs_no_such_field', ObjS, StrS, z3.BoolSort())
normal = z3.Function('spec_normalised', StrS, StrS)
tail = z3.Function('substr', StrS, B64, B64, StrS)
detach_ok = z3.Function('spec_detached_allowed', ObjS, z3.BoolSort())
sibling = z3.Function('obs_sibling', ObjS, ObjS, StrS, ObjS)
sibling_no = z3.Function('obs_no_sibling', ObjS, ObjS, StrS, z3.BoolSort())
real_kind = z3.Function('spec_kind_behind_refs', ObjS, z3.BitVecSort(32))
strref_ok = z3.Function('spec_strvalue_ok', ObjS, StrS, z3.BoolSort())
strref = z3.Function('spec_strvalue', ObjS, StrS, StrS)


def ap_find(eng, st, args, ins, mod, nm):
    i, s = eng.ident_of(st, args[0]), get_str(eng, st, args[1]).z()
    oid = eng.lazy_obj(st, found(i, s), FLD, 'found')
    return [(st, 'ret', Ptr(oid, 0, nul=found_no(i, s)))]


def ap_norm(eng, st, args, ins, mod, nm):
    set_str(eng, st, args[0], SV(normal(get_str(eng, st, args[0]).z())))
    return [(st, 'ret', None)]


def ap_detach(eng, st, args, ins, mod, nm):
    r = detach_ok(eng.ident_of(st, args[0]))
    B.may_report(eng, st, r)
    return [(st, 'ret', r)]


def ap_sibling(eng, st, args, ins, mod, nm):
    i, f, s = eng.ident_of(st, args[0]), eng.ident_of(st, args[1]), get_str(eng, st, args[2]).z()
    no = sibling_no(i, f, s)
    B.may_report(eng, st, Not(no))
    return [(st, 'ret', Ptr(eng.lazy_obj(st, sibling(i, f, s), FLD, 'sibling'), 0, nul=no))]


def ap_no_ref(eng, st, args, ins, mod, nm):
    set_str(eng, st, args[0], SV(''))
    return [(st, 'ret', None)]


def ap_real_kind(eng, st, args, ins, mod, nm):
    return [(st, 'ret', real_kind(eng.ident_of(st, args[0])))]


def ap_strvalue(eng, st, args, ins, mod, nm):
    """the text, or the one the reference stands for; written on success"""
    i, s = eng.ident_of(st, args[0]), get_str(eng, st, args[1]).z()
    set_str(eng, st, args[2], SV(z3.If(strref_ok(i, s), strref(i, s), get_str(eng, st, args[2]).z())))
    return [(st, 'ret', strref_ok(i, s))]


def ap_create(eng, st, args, ins, mod, nm):
    from irv.llparse import PTR
    oid = eng.lazy_obj(st, z3.FreshConst(ObjS, 'newfield'), FLD, 'newfield')
    st.wobj(oid).ext = False
    eng.store(st, args[0], Ptr(oid), PTR, mod)
    return [(st, 'ret', None)]


# ------------------------------------------------------------------ a part: defined elsewhere, inside, or a sibling's name
class Part:
    def __init__(self, ext, own, det):
        self.ext, self.own, self.det = ext, own, det


def member_part(name):
    u = name[0].lower() + name[1:]
    names = ('m_state.m_ext%sField' % name, 'm_%sField' % u, 'm_state.m_detached%sField' % name)

    def get(v, det=True):
        return Part(v(names[0]), v(names[1]), v(names[2]).z() if det else None)
    get.names = names
    return get


def arg_part(cx, post):
    st = cx.st1 if post else cx.st0
    ld = lambda i, t: load_typed(cx.eng, st, cx.args[i], t, cx.mod)
    return Part(ld(1, PTR_T), ld(2, OWN_T), ld(3, 'std::string').z())


has_ext = lambda p: Not(isnull(p.ext))
has_own = lambda p: Not(isnull(p.own))
has_field = lambda p: Or(has_ext(p), has_own(p))
has_det = lambda p: z3.BoolVal(False) if p.det is None else p.det != EMPTY
there = lambda p: Or(has_field(p), has_det(p))


def one_kind(p):
    """a part is defined at most once"""
    return And(Not(And(has_ext(p), has_own(p))), Not(And(has_det(p), has_field(p))))


def kind_ok(cx, st, p):
    i = cx.eng.ident_of(st, raw(p))
    return Or(S.field_kind(i) == INT, V(cx.eng, st, raw(p), FLD, cx.mod)('m_state.m_semanticType') == LENGTH)


def same_ptr(cx, p, st0, q, st1):
    """equal pointers (both null, or the same object)"""
    if p.obj is None or q.obj is None:
        a, b = isnull(p), isnull(q)
        return a == b if p.obj is q.obj else And(a, b)
    return And(isnull(p) == isnull(q), Or(isnull(p), cx.eng.ident_of(st0, raw(p)) == cx.eng.ident_of(st1, raw(q))))


def unchanged(cx, p0, p1):
    return And(same_ptr(cx, p0.ext, cx.st0, p1.ext, cx.st1), same_ptr(cx, p0.own, cx.st0, p1.own, cx.st1), p0.det == p1.det if p0.det is not None else True)



def ref_facts(cx, part, key, detach=True):
    """a part named by a property: $sibling, or a field defined earlier -> (acceptable, what the part is then)"""
    p1 = part(cx, True)
    c, s = S.prop(cx, key), S.prop_str(cx, key)
    prot = cx.eng.ident_of(cx.st1, cx.old('m_protocol'))
    ne = B.slen(s) != 0
    ch = bv(cx.eng.char_at(cx.st1, SV(s), z3.BitVecVal(0, 64)), 8)
    det = And(ne, ch == ord('$')) if detach else z3.BoolVal(False)
    nm = normal(tail(s, z3.BitVecVal(1, 64), B.slen(s) - 1))
    fid, no = found(prot, s), found_no(prot, s)
    fld = Ptr(cx.eng.lazy_obj(cx.st1, fid, FLD, 'found'))
    if not detach:
        return c, Not(no), [('the field is the one found', And(has_ext(p1), is_obj(cx, p1.ext, fid), isnull(p1.own)))]
    ok_f = And(Not(no), kind_ok(cx, cx.st1, fld))
    ok_d = And(detach_ok(cx.ident(cx.args['this'])), nm != EMPTY)
    return c, And(ne, z3.If(det, ok_d, ok_f)), [('a sibling is known by its name alone', Implies(det, And(p1.det == nm, isnull(p1.ext), isnull(p1.own)))),
                                                ('the field is the one found', Implies(Not(det), And(has_ext(p1), is_obj(cx, p1.ext, fid), isnull(p1.own), p1.det == EMPTY)))]


def key_of(cx, prop):
    return prop if prop is not None else cx.deref(0, 'std::string').v


def from_ref(part, prop=None, detach=True):
    def ens(cx):
        p0, p1 = part(cx, False), part(cx, True)
        c, ok, facts = ref_facts(cx, part, key_of(cx, prop), detach)
        acc = cx.res
        return [('accepted exactly when not given, or given once as an allowed sibling or a field that can tell a size', acc == And(z3.ULE(c, 1), Implies(c != 0, ok))),
                ('nothing changes when it is not given', Implies(And(acc, c == 0), unchanged(cx, p0, p1))),
                ('the part is defined at most once', Implies(acc, one_kind(p1))), S.rejected_reports(cx)] + [(n, Implies(And(acc, c != 0), f)) for n, f in facts]
    return ens


def is_obj(cx, p, ident):
    return z3.BoolVal(False) if p.obj is None else cx.eng.ident_of(cx.st1, raw(p)) == ident


def child_fact(cx, part):
    """a new field inside that can tell a size"""
    p1 = part(cx, True)
    new = And(has_own(p1), isnull(p1.ext), p1.det == EMPTY if p1.det is not None else True)
    return And(new, kind_ok(cx, cx.st1, p1.own)) if p1.own.obj is not None and p1.det is not None else new


def as_child(part, prop=None):
    def ens(cx):
        p0, p1 = part(cx, False), part(cx, True)
        c = S.prop(cx, key_of(cx, prop))
        return [('the part is defined at most once', Implies(cx.res, one_kind(p1))),
                ('nothing changes when it is given as a property', Implies(And(cx.res, c != 0), unchanged(cx, p0, p1))),
                ('accepted with nothing changed or a new field inside that can tell a size', Implies(cx.res, Or(unchanged(cx, p0, p1), child_fact(cx, part)))), S.rejected_reports(cx)]
    return ens


def as_written(cx, part, prop, unless=None):
    """what an accepted part is"""
    c, ok, facts = ref_facts(cx, part, prop)
    acc = cx.res if unless is None else And(cx.res, Not(unless))
    p0, p1 = part(cx, False), part(cx, True)
    return [('a part given as a property is acceptable', Implies(And(cx.res, c != 0), And(c == 1, ok)))] + [(n, Implies(And(acc, c != 0), f)) for n, f in facts] + [
        ('a part not given as a property is the inherited one or a new field inside', Implies(And(acc, c == 0), Or(unchanged(cx, p0, p1), child_fact(cx, part))))]


# ------------------------------------------------------------------ string and data
PREFIX = member_part('Prefix')
PN = list(PREFIX.names)
mpart = lambda get: (lambda cx, post: get(cx.new if post else cx.old))
wide = lambda x: z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def ways(v, kind):
    """(a way of telling the size is used) for each way, the parts"""
    if kind == 'List':
        ps = {k: member_part(k)(v) for k in ('CountPrefix', 'LengthPrefix', 'ElemLengthPrefix', 'TermSuffix')}
        return [v('m_state.m_count') != 0] + [there(ps[k]) for k in ('CountPrefix', 'LengthPrefix', 'TermSuffix')], list(ps.values())
    p = PREFIX(v)
    return [v('m_state.m_length') != 0, there(p)] + ([v('m_state.m_haxZeroSuffix')] if kind == 'String' else []), [p]


def inv(v, kind):
    w, ps = ways(v, kind)
    out = [('a part is defined at most once', And(*[one_kind(p) for p in ps]))]
    out.append(('the size is told in one way', And(*[Not(And(w[i], w[j])) for i in range(len(w)) for j in range(i)])))
    return out


def pre(kind):
    return lambda cx: B.node_ok(cx) + inv(cx.old, kind)


def still(cx, kind):
    return [(n, Implies(cx.res, c)) for n, c in inv(cx.new, kind)]


def length_ens(kind, member='m_length', prop='length'):
    def ens(cx):
        l0, l1 = [wide(v('m_state.' + member)) for v in (cx.old, cx.new)]
        c, s = S.prop(cx, prop), S.prop_str(cx, prop)
        v = z3.ZeroExt(32, B.num_n(s, S.B10))
        w, ps = ways(cx.old, kind)
        other = Or(*(w[1:] + ([has_det(ps[2])] if kind == 'List' else [])))
        good = And(B.num_n_ok(s, S.B10), v != 0)
        fine = Not(other) if kind == 'List' else Or(l0 == v, Not(other))
        return [('accepted exactly when not given, or given once as a number that is not zero, without another way of telling the size', cx.res == And(z3.ULE(c, 1), Implies(c != 0, And(good, fine)))),
                ('the number is the written one, else the inherited one', Implies(cx.res, l1 == z3.If(c != 0, v, l0)))] + still(cx, kind) + [S.rejected_reports(cx)]
    return ens


def zero_ens(cx):
    z0, z1 = [v('m_state.m_haxZeroSuffix') for v in (cx.old, cx.new)]
    c, s = S.prop(cx, 'zeroTermSuffix'), S.prop_str(cx, 'zeroTermSuffix')
    w, _ = ways(cx.old, 'String')
    return [('accepted exactly when not given, or given once as a boolean, true only without another way of telling the size', cx.res == And(z3.ULE(c, 1), Implies(c != 0, And(B.bool_ok(s), Or(Not(B.bool_v(s)), z0, Not(Or(*w[:2]))))))),
            ('the terminator is used when written so, else when inherited', Implies(cx.res, z1 == z3.If(c != 0, B.bool_v(s), z0)))] + still(cx, 'String') + [S.rejected_reports(cx)]


def prefix_pre(kind):
    """the prefix may replace an inherited one, the rest is in order"""
    return lambda cx: B.node_ok(cx) + inv(cx.old, kind)


def prefix_ens(kind, name='Prefix', prop='lengthPrefix'):
    def ens(cx):
        part = mpart(member_part(name))
        off = None
        if name == 'TermSuffix':        # not known to older versions of the language: ignored
            from props import C14
            off = Not(S.supported(cx, C14.prop_since(SV(prop).z())))
            p1 = part(cx, True)
        out = as_written(cx, part, prop, off)
        if off is not None:
            out.append(('a suffix the language version does not know is ignored', Implies(And(cx.res, off), Not(there(p1)))))
        if name == 'ElemLengthPrefix':
            out.append(('a sibling tells the length of elements of the same length only', Implies(And(cx.res, has_det(part(cx, True))), cx.new('m_state.m_elemFixedLength'))))
        return out + still(cx, kind) + [S.rejected_reports(cx)]
    return ens


def enc_ens(cx):
    e0, e1 = [v('m_state.m_encoding').z() for v in (cx.old, cx.new)]
    c, s = S.prop(cx, 'encoding'), S.prop_str(cx, 'encoding')
    return [('accepted unless given more than once', cx.res == z3.ULE(c, 1)), ('the encoding is the written one, else the inherited one', Implies(cx.res, e1 == z3.If(c != 0, s, e0))), S.rejected_reports(cx)]


def def_ens(cx):
    d0, d1 = [v('m_state.m_defaultValue').z() for v in (cx.old, cx.new)]
    c, s = S.prop(cx, 'defaultValue'), S.prop_str(cx, 'defaultValue')
    prot = cx.eng.ident_of(cx.st1, cx.old('m_protocol'))
    return [('accepted exactly when not given, or given once as a text or a reference to one', cx.res == And(z3.ULE(c, 1), Implies(c != 0, strref_ok(prot, s)))),
            ('the default is the written one, else the inherited one', Implies(cx.res, d1 == z3.If(c != 0, strref(prot, s), d0))), S.rejected_reports(cx)]


def sib_ok(cx, name):
    me, fs = cx.ident(cx.args['this']), cx.eng.ident_of(cx.st1, cx.args[0])
    sid = sibling(me, fs, name)
    p = Ptr(cx.eng.lazy_obj(cx.st1, sid, FLD, 'sibling'))
    return Or(name == EMPTY, And(Not(sibling_no(me, fs, name)), Or(real_kind(sid) == INT, V(cx.eng, cx.st1, p, FLD, cx.mod)('m_state.m_semanticType') == LENGTH)))


def sib_ens(*members):
    def ens(cx):
        return [('accepted exactly when every sibling named exists and can tell a size', cx.res == And(*[sib_ok(cx, cx.old(m).z()) for m in members])), S.rejected_reports(cx)]
    return ens


def sib_arg_ens(cx):
    return [('accepted exactly when the sibling named exists and can tell a size', cx.res == sib_ok(cx, cx.deref(1, 'std::string').z())), S.rejected_reports(cx)]


# ------------------------------------------------------------------ inheriting, the whole, the element of a list
def reuse_pre(kind):
    def req(cx):
        o = cx.view(cx.args[0], K[kind], False)
        me = cx.old
        parts = ['Prefix'] if kind != 'List' else LIST_PARTS
        own = [V(cx.eng, cx.st0, cx.args['this'], K[kind], cx.mod)(own_name(n)) for n in parts]
        return inv(o, kind) + [('the kinds are the same', S.field_kind(cx.ident(cx.args[0])) == S.KINDS.index(kind.lower())), ('nothing was defined yet', And(*[isnull(x) for x in own]))] + (
            [('the element is defined once', Not(And(has_ext(elem_part(o)), has_own(elem_part(o)))))] if kind == 'List' else [])
    return req


LIST_PARTS = ['Element', 'CountPrefix', 'LengthPrefix', 'ElemLengthPrefix', 'TermSuffix']
own_name = lambda n: 'm_%sField' % (n[0].lower() + n[1:])
elem_part = lambda v: Part(v('m_state.m_extElementField'), v('m_elementField'), None)


def reuse_ens(kind):
    def ens(cx):
        o, n = cx.view(cx.args[0], K[kind]), cx.new
        out = []
        for x in (['Prefix'] if kind != 'List' else LIST_PARTS):
            a, b = [member_part(x)(v, x != 'Element') for v in (o, n)]
            out.append(('the %s is the inherited one' % x, And(same_ptr(cx, a.ext, cx.st1, b.ext, cx.st1), has_own(a) == has_own(b), a.det == b.det if a.det is not None else True)))
        for m in dict(String=['m_length', 'm_haxZeroSuffix', 'm_encoding', 'm_defaultValue'], Data=['m_length'], List=['m_count', 'm_elemFixedLength'])[kind]:
            a, b = [v('m_state.' + m) for v in (o, n)]
            a, b = [x.z() if isinstance(x, SV) else x for x in (a, b)]
            out.append(('%s is the inherited one' % m, a == b))
        return [('accepted', bl(cx.res))] + out + still(cx, kind)
    return ens


def ap_clone(eng, st, args, ins, mod, nm):
    """a copy of a field"""
    from irv.llparse import PTR
    oid = eng.lazy_obj(st, z3.FreshConst(ObjS, 'clone'), FLD, 'clone')
    st.wobj(oid).ext = False
    eng.store(st, args[0], Ptr(oid), PTR, mod)
    return [(st, 'ret', None)]


def whole_ens(kind):
    def ens(cx):
        out = still(cx, kind)
        for prop, m in dict(String=[('length', 'm_length')], Data=[('length', 'm_length')], List=[('count', 'm_count')])[kind]:
            c, s = S.prop(cx, prop), S.prop_str(cx, prop)
            l0, l1 = [wide(v('m_state.' + m)) for v in (cx.old, cx.new)]
            out.append(('the %s is the written one, else the inherited one' % prop, Implies(cx.res, l1 == z3.If(c != 0, z3.ZeroExt(32, B.num_n(s, S.B10)), l0))))
        if kind == 'String':
            z0, z1 = [v('m_state.m_haxZeroSuffix') for v in (cx.old, cx.new)]
            c, s = S.prop(cx, 'zeroTermSuffix'), S.prop_str(cx, 'zeroTermSuffix')
            out.append(('the terminator is used when written so, else when inherited', Implies(cx.res, z1 == z3.If(c != 0, B.bool_v(s), z0))))
        if kind == 'List':
            e = elem_part(cx.new)
            out.append(('a list has an element, defined once', Implies(cx.res, And(has_field(e), Not(And(has_ext(e), has_own(e)))))))
        else:
            out += as_written(cx, mpart(PREFIX), 'lengthPrefix')
        return out + [S.rejected_reports(cx)]
    return ens


def whole_pre(kind):
    return lambda cx: pre(kind)(cx) + ([('the element is defined once', Not(And(has_ext(elem_part(cx.old)), has_own(elem_part(cx.old)))))] if kind == 'List' else [])


EPART = lambda cx, post: elem_part(cx.new if post else cx.old)
EN = ['m_state.m_extElementField', 'm_elementField']


def elem_once(cx):
    e = elem_part(cx.old)
    return B.node_ok(cx) + [('the element is defined once', Not(And(has_ext(e), has_own(e))))]


def elem_ref_ens(cx):
    p0, p1 = EPART(cx, False), EPART(cx, True)
    c, ok, facts = ref_facts(cx, EPART, 'element', False)
    return [('accepted exactly when not given, or given once as a field defined earlier', cx.res == And(z3.ULE(c, 1), Implies(c != 0, ok))),
            ('nothing changes when it is not given', Implies(And(cx.res, c == 0), unchanged(cx, p0, p1))), S.rejected_reports(cx)] + [(n, Implies(And(cx.res, c != 0), f)) for n, f in facts]


def elem_child_ens(cx):
    p0, p1 = EPART(cx, False), EPART(cx, True)
    c = S.prop(cx, 'element')
    return [('the element is defined once', Implies(cx.res, Not(And(has_ext(p1), has_own(p1))))),
            ('nothing changes when it is given as a property', Implies(And(cx.res, c != 0), unchanged(cx, p0, p1))),
            ('accepted with nothing changed or a new field inside', Implies(cx.res, Or(unchanged(cx, p0, p1), child_fact(cx, EPART)))), S.rejected_reports(cx)]


def elem_ens(cx):
    p0, p1 = EPART(cx, False), EPART(cx, True)
    c, ok, facts = ref_facts(cx, EPART, 'element', False)
    return [('a list has an element, defined once', Implies(cx.res, And(has_field(p1), Not(And(has_ext(p1), has_own(p1)))))),
            ('an element given as a property is defined earlier', Implies(And(cx.res, c != 0), And(c == 1, ok))),
            ('an element not given as a property is the inherited one or a new field inside', Implies(And(cx.res, c == 0), Or(unchanged(cx, p0, p1), child_fact(cx, EPART)))), S.rejected_reports(cx)] + [(n, Implies(And(cx.res, c != 0), f)) for n, f in facts]


lo, hi = [z3.Function('obs_field_%slen' % x, ObjS, B64) for x in ('min', 'max')]


def fixed_pre(cx):
    return elem_once(cx) + [('the list has an element', has_field(elem_part(cx.old)))]


def fixed_ens(cx):
    f0, f1 = [v('m_state.m_elemFixedLength') for v in (cx.old, cx.new)]
    c, s = S.prop(cx, 'elemFixedLength'), S.prop_str(cx, 'elemFixedLength')
    e = elem_part(cx.old)
    same = [cx.eng.ident_of(cx.st1, raw(p)) if p.obj is not None else None for p in (e.ext, e.own)]
    eq = [lo(i) == hi(i) if i is not None else z3.BoolVal(True) for i in same]
    f = z3.If(c != 0, B.bool_v(s), f0)
    return [('accepted exactly when not given, or given once as a boolean, true only for an element of one length', cx.res == And(z3.ULE(c, 1), Implies(c != 0, B.bool_ok(s)), Implies(f, z3.If(has_ext(e), eq[0], eq[1])))),
            ('the elements have the same length when written so, else when inherited', Implies(cx.res, f1 == f)), S.rejected_reports(cx)]


def detach_ens(cx):
    p = cx.old('m_parent')
    i = cx.eng.ident_of(cx.st1, raw(p))
    kind = z3.Function('obs_obj_kind', ObjS, z3.BitVecSort(32))(i)
    return [('allowed exactly inside a message or a bundle', cx.res == And(Not(isnull(p)), Or(kind == 2, And(kind == 1, S.field_kind(i) == S.KINDS.index('bundle'))))), S.rejected_reports(cx)]


REF = S.KINDS.index('ref')


def ref_target(eng, st, i):
    """(identity of the target of a reference field, there is none)"""
    off = next(o for o, (nm, ty) in eng.prog.layouts[N + 'ParseRefFieldImpl'].f.items() if nm.split('.')[-1] == 'm_field')
    return z3.Function('o%d:ptr' % off, ObjS, ObjS)(i), z3.Function('o%d:isnull' % off, ObjS, z3.BoolSort())(i)


def rk_fact(eng, st, i, mod):
    """the kind behind references: of the target for a reference, else its own; an accepted reference has a target (C13)"""
    t, no = ref_target(eng, st, i)
    isref = S.field_kind(i) == REF
    return And(real_kind(i) == z3.If(isref, real_kind(t), S.field_kind(i)), Implies(isref, Not(no)))


def chain_loop(eng, st, fn, blk):
    sp = eng.__dict__.setdefault('_houdini', {})
    if (fn.name, blk) not in sp:
        def gen(lp):
            cs = []
            for (oid, ck), nv in [(k, v) for k, v in lp.hav.items() if isinstance(k, tuple)]:
                if isinstance(nv, Ptr) and nv.term is None and isinstance((lp.st.obj(oid).cells.get(ck) or (0, 0))[1], Ptr):
                    at = lambda s, oid=oid, ck=ck: s.obj(oid).cells[ck][1]
                    i0 = eng.ident_of(lp.st, raw(at(lp.st)))
                    i1 = eng.ident_of(lp.sh, raw(nv))
                    lp.sh.assume(rk_fact(eng, lp.sh, i1, fn.mod))
                    cs.append(((oid, ck, 'there'), 'the field exists', lambda s, at=at: Not(isnull(at(s)))))
                    cs.append(((oid, ck), 'the kind behind the references is the same', lambda s, at=at, i0=i0: real_kind(eng.ident_of(s, raw(at(s)))) == real_kind(i0)))
            return [], cs
        sp[(fn.name, blk)] = Houdini(gen)
    return sp[(fn.name, blk)]


def rk_ens(cx):
    i = cx.eng.ident_of(cx.st1, cx.arg(0))
    return [('the kind behind the references', cx.res == real_kind(i))]


def rk_pre(cx):
    i = cx.eng.ident_of(cx.st0, cx.arg(0))
    cx.st0.assume(rk_fact(cx.eng, cx.st0, i, cx.mod))
    return []


def find_pre(cx):
    q = cx.deref(0, 'std::vector<std::unique_ptr<%s> >' % FLD, False)
    v = z3.FreshConst(B64, 'mem')
    cx.st0.foralls.append(Forall(0, q.n, v, Not(bl(q[v].nul)), [], q.v.store))
    cx.st0.assume(z3.ULT(q.n, 1 << 40))
    return B.node_ok(cx)


members_of = z3.Function('obs_members', ObjS, ObjS)


def ap_members(eng, st, args, ins, mod, nm):
    """the members of a field"""
    i = eng.ident_of(st, args[0])
    st.g['gh:members'] = i
    return [(st, 'ret', Ptr(eng.lazy_obj(st, members_of(i), None, 'members')))]


def ap_sibling_rec(eng, st, args, ins, mod, nm):
    r = ap_sibling(eng, st, args, ins, mod, nm)
    st.g['gh:deeper'] = (eng.ident_of(st, args[1]), get_str(eng, st, args[2]).z(), sibling(eng.ident_of(st, args[0]), eng.ident_of(st, args[1]), get_str(eng, st, args[2]).z()))
    return r


def find_ens(cx):
    eng, st, r = cx.eng, cx.st1, cx.result
    s = cx.str_arg(1)
    nm = s.z()
    q = cx.deref(0, 'std::vector<std::unique_ptr<%s> >' % FLD)
    z = z3.BitVecVal(0, 64)
    pos = z3.Function('strffo', StrS, StrS, B64, B64)(nm, SV('.').z(), z)
    dot = z3.ULT(pos, B.slen(nm))
    name = lambda i: V(eng, st, Ptr(eng.lazy_obj(st, i, FLD, 'field')), FLD, cx.mod)('m_state.m_name').z()
    out = [('a missing sibling is reported', Implies(isnull(r), bl(cx.err())))]
    deep = st.g.get('gh:deeper')
    if deep is not None:
        f = st.g['gh:members']
        out.append(('deeper only for a name with a dot, in the members of the field named first', And(dot, deep[0] == members_of(f), name(f) == tail(nm, z, pos), deep[1] == tail(nm, pos + 1, B.slen(nm) - pos - 1))))
        out.append(('the sibling is the one found deeper', Or(isnull(r), is_obj(cx, r, deep[2]))))
        return out
    v = z3.FreshConst(B64, 'any')
    q.inst(v)
    out.append(('nothing is missed', Implies(And(isnull(r), Not(dot), z3.ULT(v, q.n)), name(eng.ident_of(st, raw(q[v]))) != nm)))
    if r.obj is not None:
        out.append(('the sibling has the name', And(Not(dot), name(eng.ident_of(st, raw(r))) == nm)))
    return out


def contracts():
    P = N + 'ParseProtocolImpl::'
    out = [
        Contract(P + 'parseFindField', apply_fn=ap_find, trusted=True, note='C13'),
        Contract(N + 'common::parseNormaliseString', apply_fn=ap_norm, trusted=True, note='a function of the text'),
        Contract(FLD + '::parseCheckDetachedPrefixAllowed', apply_fn=ap_detach, trusted=True, note='as verified here'),
        Contract(FLD + '::parseFindSibling', apply_fn=ap_sibling_rec, trusted=True, note='as verified here'),
        Contract('virtual ' + FLD + '::parseMembersImpl', cls=FLD, apply_fn=ap_members, trusted=True, note='the members of a field'),
        Contract(FLD + '::parseGetNonRefFieldKind', apply_fn=ap_real_kind, trusted=True, note='as verified here'),
        Contract(P + 'parseStrToStringValue', apply_fn=ap_strvalue, trusted=True, note='C18'),
        Contract(P + 'parseIsFieldValueReferenceSupported', apply_fn=C05.ap_refs, trusted=True, note='C14'),
        Contract(N + 'ParseXmlWrap::parseGetChildren', apply_fn=C10.ap_children, trusted=True, note='libxml2 tree'),
        Contract(FLD + '::parseCreate', apply_fn=ap_create, trusted=True, note='a new field object'),
        Contract(FLD + '::parse', apply_fn=C10.lazify(FLD, lambda v: v('m_state.m_name')), trusted=True, note='a rejection is reported (C16)'),
    ]
    for k in ('String', 'Data'):
        c = K[k]
        out += [
            Contract(c + '::parseCheckPrefixFromRef', requires=lambda cx: B.node_ok(cx) + [('the prefix is defined at most once', one_kind(PREFIX(cx.old)))], ensures=from_ref(mpart(PREFIX), 'lengthPrefix'), modifies=PN).logs(),
            Contract(c + '::parseCheckPrefixAsChild', requires=lambda cx: B.node_ok(cx) + [('the prefix is defined at most once', one_kind(PREFIX(cx.old)))], ensures=as_child(mpart(PREFIX), 'lengthPrefix'), modifies=PN).logs(),
            Contract(c + '::parseUpdatePrefix', requires=prefix_pre(k), ensures=prefix_ens(k), modifies=PN).logs(),
            Contract(c + '::parseUpdateLength', requires=pre(k), ensures=length_ens(k), modifies=['m_state.m_length']).logs(),
            Contract(c + '::parseVerifySiblingsImpl', requires=B.node_ok, ensures=sib_ens(PN[2]), modifies=[], callable=False).logs(),
        ]
    out += [Contract(K['String'] + '::parseUpdateZeroTerm', requires=pre('String'), ensures=zero_ens, modifies=['m_state.m_haxZeroSuffix']).logs(),
            Contract(K['String'] + '::parseUpdateEncoding', requires=B.node_ok, ensures=enc_ens, modifies=['m_state.m_encoding']).logs(),
            Contract(K['String'] + '::parseUpdateDefaultValue', requires=B.node_ok, ensures=def_ens, modifies=['m_state.m_defaultValue']).logs()]
    for k in ('String', 'Data', 'List'):
        out.append(Contract(K[k] + '::parseReuseImpl', requires=reuse_pre(k), ensures=reuse_ens(k), modifies=None, callable=False))
        out.append(Contract(K[k] + '::parseImpl', requires=whole_pre(k), ensures=whole_ens(k), modifies=None, callable=False).logs())
    out += [Contract(K['Data'] + '::parseUpdateDefaultValue', ensures=lambda cx: [S.rejected_reports(cx)], modifies=['m_state.m_defaultValue'], trusted=True, note='value of the bytes: decided by the corpus').logs(),
            Contract(FLD + '::parseClone', apply_fn=ap_clone, trusted=True, note='a copy of a field (C15)')]
    for k in ('String', 'Data'):
        out += [Contract(K[k] + '::parseUpdateValidValues', ensures=lambda cx: [S.rejected_reports(cx)], modifies=['m_state.m_validValues'], trusted=True, note='valid values are not part of the property').logs(),
                Contract(K[k] + '::parseUpdateDefaultValidValue', ensures=lambda cx: [S.rejected_reports(cx)], modifies=['m_state.m_validValues', 'm_state.m_defaultValue'], trusted=True, note='valid values are not part of the property').logs()]
    out += [Contract(FLD + '::parseCheckDetachedPrefixAllowed', requires=B.node_ok, ensures=detach_ens, modifies=[], callable=False).logs(),
            Contract(FLD + '::parseGetNonRefFieldKind', requires=rk_pre, ensures=rk_ens, modifies=[], callable=False, loops={FLD + '::parseGetNonRefFieldKind': chain_loop}),
            Contract(FLD + '::parseFindSibling', requires=find_pre, ensures=find_ens, modifies=[], callable=False).logs()]
    # ---- lists
    L = K['List']
    out += [Contract(N + 'parseListSupportedTypes', apply_fn=C06.ap_names, trusted=True, note='names of the fields (decided by the corpus)'),
            Contract(N + 'ParseXmlWrap::parseNodeProps', apply_fn=X.ap_node_props, trusted=True, note='libxml2 tree'),
            Contract(FLD + '::parseExternalRef', apply_fn=ap_no_ref, trusted=True, note='a field defined inside another cannot be referenced'),
            Contract(L + '::parseCheckElementFromRef', requires=elem_once, ensures=elem_ref_ens, modifies=EN).logs(),
            Contract(L + '::parseCheckElementAsChild', requires=elem_once, ensures=elem_child_ens, modifies=EN).logs(),
            Contract(L + '::parseUpdateElement', requires=elem_once, ensures=elem_ens, modifies=EN).logs(),
            Contract('virtual ' + FLD + '::parseMinLengthImpl', cls=FLD, pure='field_minlen', trusted=True, note='C07'),
            Contract('virtual ' + FLD + '::parseMaxLengthImpl', cls=FLD, pure='field_maxlen', trusted=True, note='C07'),
            Contract(L + '::parseUpdateElemFixedLength', requires=fixed_pre, ensures=fixed_ens, modifies=['m_state.m_elemFixedLength']).logs()]
    L = K['List']
    args3 = [(1, PTR_T), (2, OWN_T), (3, 'std::string')]
    apre = lambda cx: B.node_ok(cx) + [('the part is defined at most once', one_kind(arg_part(cx, False)))]
    out += [Contract(L + '::parseCheckPrefixFromRef', requires=apre, ensures=from_ref(arg_part), modifies=args3).logs(),
            Contract(L + '::parseCheckPrefixAsChild', requires=apre, ensures=as_child(arg_part), modifies=args3).logs(),
            Contract(L + '::parseUpdateCount', requires=pre('List'), ensures=length_ens('List', 'm_count', 'count'), modifies=['m_state.m_count']).logs(),
            Contract(L + '::parseVerifySiblingsForPrefix', requires=B.node_ok, ensures=sib_arg_ens, modifies=[]).logs(),
            Contract(L + '::parseVerifySiblingsImpl', requires=B.node_ok, ensures=sib_ens(*[member_part(k).names[2] for k in ('CountPrefix', 'LengthPrefix', 'ElemLengthPrefix', 'TermSuffix')]), modifies=[], callable=False).logs()]
    for k in ('CountPrefix', 'LengthPrefix', 'TermSuffix', 'ElemLengthPrefix'):
        out.append(Contract(L + '::parseUpdate' + k, requires=pre('List'), ensures=prefix_ens('List', k, k[0].lower() + k[1:]), modifies=list(member_part(k).names)).logs())
    return out


# ------------------------------------------------------------------ the real parser against a table of what tells a size
KIND = ['string', 'data', 'list']
GLOB = ('<int name="pi" type="uint8"/><int name="ps" type="int16"/><bitfield name="pl" semanticType="length"><int name="k" type="uint8"/></bitfield><enum name="pe" type="uint8"><validValue name="V" val="0"/></enum>'
        '<ref name="pr" field="pi"/><string name="pt" length="2"/><float name="pf" type="float"/><list name="pv" count="2"><string name="k"/></list><bundle name="pb"><int name="k" type="uint8"/></bundle>')
GOK = {'pi': True, 'ps': True, 'pl': True, 'pe': False, 'pr': False, 'pt': False, 'pf': False, 'pb': False, 'nope': False}
FIXED_ELEM = {'pi': True, 'ps': True, 'pl': True, 'pe': True, 'pr': True, 'pt': True, 'pf': True, 'pb': True, 'pv': False}
BEFORE = '<int name="si" type="uint8"/><enum name="se" type="uint8"><validValue name="V" val="0"/></enum><ref name="sr" field="pi"/><bitfield name="sl" semanticType="length"><int name="k" type="uint8"/></bitfield><bundle name="sb"><int name="k" type="uint8"/><string name="t"/></bundle>'
AFTER = '<int name="sz" type="uint8"/>'
SOK = {'si': True, 'se': False, 'sr': True, 'sl': True, 'sb': False, 'sb.k': True, 'sb.t': False, 'sz': False, 'nope': False, 'sb.nope': False, 'x2': False, '': False}
IN = {'int': ('<int name="in" type="uint16"/>', True, True), 'len': ('<bitfield name="in" semanticType="length"><int name="k" type="uint8"/></bitfield>', True, True), 'float': ('<float name="in" type="float"/>', False, True),
      'string': ('<string name="in"/>', False, False), 'fixed': ('<string name="in" length="3"/>', False, True), 'two': ('<int name="in" type="uint16"/><int name="in2" type="uint16"/>', False, None)}
NAMES = {'string': ['lengthPrefix'], 'data': ['lengthPrefix'], 'list': ['countPrefix', 'lengthPrefix', 'elemLengthPrefix', 'termSuffix']}
DUMP = {'lengthPrefix': ('lp', 'dlp'), 'countPrefix': ('cp', 'dcp'), 'elemLengthPrefix': ('ep', 'dep'), 'termSuffix': ('ts', 'dts')}


def unsigned(t):
    import re
    t = t.strip()
    if not re.fullmatch(r'[1-9][0-9]*|0|0x[0-9a-fA-F]+', t):
        return None
    v = int(t, 0)
    return v if v < 2**32 else None


def hexdata(t):
    import re
    t = t.replace(' ', '')
    return t.lower() if re.fullmatch('([0-9a-fA-F]{2})*', t) else None


def boolean(t):
    return {'true': True, 't': True, '1': True, 'false': False, 'f': False, '0': False}.get(t.strip().lower())


def D(kind, **a):
    """attrs: {property: text}; props: the same as child elements; inside: {part: key of IN}; direct: a field of a list without <element>"""
    return dict(dict(kind=kind, attrs={}, props={}, inside={}, direct=None), **a)


def text_of(d, name, reuse=None):
    a = dict({'name': name}, **d['attrs'])
    if reuse:
        a['reuse'] = reuse
    body = ''.join('<%s value="%s"/>' % x for x in d['props'].items()) + ''.join('<%s>%s</%s>' % (k, IN[v][0], k) for k, v in d['inside'].items())
    return el(d['kind'], a, body + (IN[d['direct']][0] if d['direct'] else ''))


def define(d, base, where, dsl):
    """the state a definition leads to, None when it is to be rejected"""
    k = d['kind']
    if set(d['attrs']) & set(d['props']):
        return None
    g = dict(d['attrs'], **d['props'])
    if set(g) & set(d['inside']):
        return None
    s = dict(base) if base else dict(fixed=0, zts=False, enc='', deflt='', efl=False, elem=None, parts={})
    s['parts'] = dict(s['parts'])
    parts = s['parts']
    inherited = set(parts)
    if k == 'list':
        if d['direct'] and ('element' in g or d['inside'] or d['props']):
            return None
        e = d['inside'].get('element', d['direct'])
        if e:
            if e == 'two':
                return None
            s['elem'] = ('in', IN[e][2])
        if 'element' in g:
            if g['element'] not in FIXED_ELEM:
                return None
            s['elem'] = (g['element'], FIXED_ELEM[g['element']])
        if s['elem'] is None:
            return None
    size = 'count' if k == 'list' else 'length'
    if size in g:
        v = unsigned(g[size])
        if not v:
            return None
        ways = inherited & {'countPrefix', 'lengthPrefix', 'termSuffix'} or s['zts']
        if ways and (k == 'list' or v != s['fixed']):
            return None
        s['fixed'] = v
    for p in NAMES[k]:
        if p in d['inside']:
            if not IN[d['inside'][p]][1]:
                return None
            parts[p] = ('field', 'in')
        if p in g:
            t = g[p].strip()
            if t.startswith('$'):
                if where not in (1, 2) or not SOK.get(t[1:], False):
                    return None
                parts[p] = ('sibling', t[1:])
            elif not GOK.get(t, False):
                return None
            else:
                parts[p] = ('field', t)
    if k == 'list':
        if 'elemFixedLength' in g:
            s['efl'] = boolean(g['elemFixedLength'])
            if s['efl'] is None:
                return None
        if s['efl'] and not s['elem'][1]:
            return None
        if parts.get('elemLengthPrefix', ('',))[0] == 'sibling' and not s['efl']:
            return None
        if dsl < 5:
            parts.pop('termSuffix', None)
        if (s['fixed'] != 0) + sum(x in parts for x in ('countPrefix', 'lengthPrefix', 'termSuffix')) > 1:
            return None
    else:
        if 'zeroTermSuffix' in g:
            z = boolean(g['zeroTermSuffix'])
            if z is None:
                return None
            s['zts'], was = z, s['zts']
            if was and not z and ('lengthPrefix' in parts):
                return None
        if (s['fixed'] != 0) + bool(parts) + s['zts'] > 1:
            return None
        s['enc'] = g.get('encoding', s['enc'])
        if 'defaultValue' in g:
            s['deflt'] = g['defaultValue'] if k == 'string' else hexdata(g['defaultValue'])
            if s['deflt'] is None:
                return None
    return s


def case(d, base=None, where=0, dsl=6):
    b = define(base, None, 0, dsl) if base else None
    want = None if base and b is None else define(d, b, where, dsl)
    x1 = text_of(base, 'x1') if base else ''
    x2 = text_of(d, 'x2', 'x1' if base else None)
    old = (lambda t: t) if dsl > 5 else lambda t: t.replace(' semanticType="length"', '')    # only integers tell a length there
    inner = old(BEFORE) + x2 + AFTER
    body = {0: x2, 1: '<message name="M" id="1"><fields>%s</fields></message>' % inner, 2: '<bundle name="B">%s</bundle>' % inner,
            3: '<list name="B" count="1"><element>%s</element></list>' % x2, 4: '<optional name="B"><field>%s</field></optional>' % x2}[where]
    if where == 1:
        return ('S', schema(old(GLOB) + x1, body, dsl=dsl), (x1 + x2, want, where, d['kind']))
    return ('S', schema(old(GLOB) + x1 + body, dsl=dsl), (x1 + x2, want, where, d['kind']))


NUMS = ['1', '3', '7', '0x10', '255', '4294967295', '4294967296', '0', '-1', 'x', '', '1.5', ' 4 ', '0x']
SIZE = lambda k: 'count' if k == 'list' else 'length'
BOOLS = ['true', 'false', '1', '0', 'True', 'yes', '']


def with_elem(k, **a):
    if k == 'list' and 'direct' not in a and 'element' not in a.get('attrs', {}) and 'element' not in a.get('props', {}) and 'element' not in a.get('inside', {}):
        a['attrs'] = dict(a.get('attrs', {}), element='pi')
    return D(k, **a)


def way(rng, k, where, p=None):
    """one way of telling the size"""
    p = p or rng.choice(NAMES[k])
    r = rng.random()
    if r < 0.35:
        return 'attrs' if rng.random() < 0.7 else 'props', p, rng.choice(['pi', 'ps', 'pl'] if rng.random() < 0.85 else list(GOK))
    if r < 0.6 and where in (1, 2) or r < 0.4:
        return 'attrs' if rng.random() < 0.7 else 'props', p, rng.choice(['$', '$', '$ ']) + rng.choice(['si', 'sr', 'sl', 'sb.k'] if rng.random() < 0.8 else list(SOK))
    return 'inside', p, rng.choice(['int', 'len'] if rng.random() < 0.85 else list(IN))


def cases(rng, tier):
    for k in KIND:
        for n in NUMS:
            yield case(with_elem(k, attrs={SIZE(k): n}))
            yield case(with_elem(k, props={SIZE(k): n})) if n else case(with_elem(k))
            for b in ('3', '4'):
                yield case(D(k, attrs={SIZE(k): n}), with_elem(k, attrs={SIZE(k): b}))
        for p in NAMES[k]:
            for f in GOK:
                yield case(with_elem(k, attrs={p: f}))
                yield case(with_elem(k, props={p: f}))
                yield case(D(k, attrs={p: f}), with_elem(k, inside={p: 'int'}))
            for f in IN:
                yield case(with_elem(k, inside={p: f}))
                yield case(with_elem(k, inside={p: f}, attrs={p: 'pi'}))
                yield case(with_elem(k, inside={p: f}, props={p: 'pi'}))
                yield case(D(k, inside={p: f}), with_elem(k, attrs={p: 'pi'}))
            for x in SOK:
                for w in range(5):
                    efl = {'elemFixedLength': 'true'} if k == 'list' else {}
                    yield case(with_elem(k, attrs=dict(efl, **{p: '$' + x})), where=w)
                    yield case(with_elem(k, attrs={p: '$' + x}), where=w)
                for other in (dict(attrs={p: 'ps'}), dict(inside={p: 'int'})):
                    yield case(D(k, attrs={p: '$' + x}), with_elem(k, **other), where=1)
            for q in NAMES[k]:
                if q != p:
                    for a in ({p: 'pi', q: 'ps'},):
                        yield case(with_elem(k, attrs=a))
                        yield case(D(k, attrs={q: 'ps'}), with_elem(k, attrs={p: 'pi'}))
                        yield case(D(k, attrs={q: '$si'}), with_elem(k, inside={p: 'int'}), where=2)
                        yield case(with_elem(k, attrs={q: '$si'}, inside={p: 'int'}), where=1)
                        yield case(with_elem(k, attrs={q: '$si', p: '$sl', 'elemFixedLength': 'true'} if k == 'list' else {q: '$si', p: '$sl'}), where=2)
            for v in ('attrs', 'props'):
                yield case(with_elem(k, **{v: {p: 'pi', SIZE(k): '5'}}))
                yield case(with_elem(k, **{v: {p: '$si', SIZE(k): '5'}}), where=1)
            yield case(D(k, attrs={p: 'pi'}), with_elem(k, attrs={SIZE(k): '5'}))
            yield case(D(k, attrs={SIZE(k): '5'}), with_elem(k, attrs={p: 'pi'}))
            yield case(D(k, inside={p: 'len'}), with_elem(k, attrs={SIZE(k): '5'}))
            yield case(D(k, attrs={p: '$si'}), with_elem(k, attrs={SIZE(k): '5'}), where=1)
    for b in BOOLS:
        yield case(D('string', attrs={'zeroTermSuffix': b}))
        yield case(D('string', attrs={'zeroTermSuffix': b, 'length': '4'}))
        yield case(D('string', attrs={'zeroTermSuffix': b, 'lengthPrefix': 'pi'}))
        yield case(D('string', attrs={'zeroTermSuffix': b, 'lengthPrefix': '$si'}), where=1)
        for base in ({'zeroTermSuffix': 'true'}, {'length': '4'}, {'lengthPrefix': 'pi'}):
            for more in ({}, {'length': '4'}, {'lengthPrefix': 'ps'}):
                yield case(D('string', attrs=dict(more, zeroTermSuffix=b)), D('string', attrs=base))
                yield case(D('string', attrs=more), D('string', attrs=base))
        for e in FIXED_ELEM:
            yield case(D('list', attrs={'element': e, 'elemFixedLength': b}))
            yield case(D('list', attrs={'element': e}), D('list', attrs={'element': 'pi', 'elemFixedLength': b}))
            yield case(D('list', attrs={'element': e, 'elemFixedLength': b}), D('list', attrs={'element': 'pi', 'elemFixedLength': 'true'}))
            for ep in ('pi', '$si'):
                yield case(D('list', attrs={'element': e, 'elemFixedLength': b, 'elemLengthPrefix': ep}), where=1)
    for e in IN:
        yield case(D('list', direct=e))
        yield case(D('list', direct=e, attrs={'count': '2'}))
        yield case(D('list', direct=e, attrs={'element': 'pi'}))
        yield case(D('list', direct=e, props={'count': '2'}))
        yield case(D('list', direct=e, inside={'element': 'int'}))
        yield case(D('list', inside={'element': e}))
        yield case(D('list', inside={'element': e}, attrs={'element': 'pi'}))
        yield case(D('list', inside={'element': e}, props={'element': 'pi'}))
        yield case(D('list', inside={'element': e}), D('list', attrs={'element': 'ps', 'elemFixedLength': 'true'}))
        yield case(D('list', direct=e), D('list', attrs={'element': 'ps', 'countPrefix': 'pi'}))
    yield case(D('list'))
    yield case(D('list', attrs={'element': 'nope'}))
    for t in ('', 'a', '00', 'aF 01', 'abc', '0g', '0 1 2 3', '-1', '0x01', '+f', '01-1', 'ff' * 40):
        for k in ('string', 'data'):
            for a in ({}, {'length': '2'}, {'lengthPrefix': 'pi'}):
                yield case(D(k, attrs=dict(a, defaultValue=t)))
            yield case(D(k, attrs={'defaultValue': t}), D(k, attrs={'defaultValue': 'abcd'}))
    for t in ('', 'utf8', 'x y', '1'):
        yield case(D('string', attrs={'encoding': t}))
        yield case(D('string', attrs={'encoding': t}), D('string', attrs={'encoding': 'old'}))
    for dsl in range(2, 8):
        for a in ({'termSuffix': 'pi'}, {'termSuffix': 'pi', 'count': '3'}, {'termSuffix': 'pi', 'countPrefix': 'ps'}, {'termSuffix': '$si', 'lengthPrefix': '$sr'}, {'termSuffix': '$si'}):
            yield case(with_elem('list', attrs=a), where=1, dsl=dsl)

    def some(k, where):
        d = dict(attrs={}, props={}, inside={})
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            if rng.random() < 0.25:
                d['attrs' if rng.random() < 0.8 else 'props'][SIZE(k)] = rng.choice(NUMS[:6] if rng.random() < 0.9 else [x for x in NUMS if x])
            else:
                w, p, v = way(rng, k, where)
                d[w][p] = v
        if k == 'list':
            if rng.random() < 0.4:
                d['attrs']['elemFixedLength'] = rng.choice(['true', 'false'])
        else:
            if rng.random() < 0.3:
                d['attrs']['defaultValue'] = rng.choice(['', 'abcd', '0102 03', 'xx'])
            if k == 'string' and rng.random() < 0.2:
                d['attrs']['zeroTermSuffix'] = rng.choice(BOOLS[:4])
            if k == 'string' and rng.random() < 0.2:
                d['attrs']['encoding'] = 'e%d' % rng.randint(0, 9)
        return d

    def elem(k, d):
        if k == 'list':
            r = rng.random()
            if r < 0.5:
                d['attrs']['element'] = rng.choice(list(FIXED_ELEM))
            else:
                d['inside']['element'] = rng.choice([x for x in IN if x != 'two'])
        return d
    for _ in range(2500 if tier == 'quick' else 30000):
        k = rng.choice(KIND)
        where = rng.choice([0, 1, 1, 2, 2, 3, 4])
        if rng.random() < 0.5:
            yield case(D(k, **elem(k, some(k, where))), where=where)
        else:
            d = some(k, where)
            yield case(D(k, **(elem(k, d) if rng.random() < 0.3 else d)), D(k, **elem(k, some(k, 0))), where=where)


def judge(c, o):
    text, want, where, kind = c[2] if not isinstance(c[2], str) else (None,) * 4
    if not isinstance(o, dict) or 'crash' in o or text is None:
        return None
    if not o.get('valid'):
        if not o.get('errs'):
            return ('silent', 'rejected without a reported error: ' + text)
        return ('rejected', 'a proper definition is rejected: %s: %s' % (text, (o.get('msgs') or ['?'])[0])) if want is not None else None
    if want is None:
        return ('accepted', 'accepted although the size is not told in one proper way: ' + text)
    n = o['schemas'][0]['ns'][0]
    fs = n['msgs'][0]['fields'] if where == 1 else n['fields']
    get = lambda l, nm: [x for x in l if x['name'] == nm][0]
    f = get(fs, 'x2') if where in (0, 1) else get(get(fs, 'B')['members'], 'x2') if where == 2 else get(fs, 'B')['elem'] if where == 3 else get(fs, 'B')['to']
    ex = dict(fixed=str(want['fixed']))
    if kind == 'list':
        ex.update(efl=want['efl'], elem=want['elem'][0])
    else:
        ex['def'] = want['deflt']
        if kind == 'string':
            ex.update(zts=want['zts'], enc=want['enc'])
    got = {x: f[x] for x in ex}
    if kind == 'list':
        got['elem'] = f['elem']['name'] if f.get('elem') else None
    for p in NAMES[kind]:
        a, b = DUMP[p]
        w = want['parts'].get(p, (None, None))
        ex[p] = (w[1] if w[0] == 'field' else None, w[1] if w[0] == 'sibling' else '')
        got[p] = (f[a]['name'] if f.get(a) else None, f[b])
    if got != ex:
        return ('told', 'told as %s instead of %s: %s' % ({x: v for x, v in got.items() if v != ex[x]}, {x: v for x, v in ex.items() if v != got[x]}, text))
    return None


BOUND = 'texts, raw data and lists with every single way of telling the size, pairs of them, reuse, and every place of a definition, about 5000 (32000) schemas, against a table of what is proper'
ASSUME = ['a reference that is accepted has a target (C13)', 'values of default bytes are decided by the corpus', 'a cast to a derived field class is right (the code tests the kind first)']
