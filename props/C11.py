"""C11: presence and validity conditions are comparisons of existing, comparable fields."""
import itertools
import re
import z3
from irv.contract import Contract, V, get_str, set_str, load_typed
from irv.engine import And, Or, Not, Implies, bl, bv, SV, VV, Ptr, StrS, ObjS, strlit, Houdini, Forall, simp, slen, schr
from irv import base as B, stl
from irv.llparse import PTR, INT
from irv.xml import schema, el, esc
from props import intspec as S, nodespec as X, C14, C17, C19, fold
from props.C19 import raw, isnull

N = 'commsdsl::parse::'
KINDS = ['Int', 'Enum', 'Set', 'Float', 'Bitfield', 'Bundle', 'String', 'Data', 'List', 'Ref', 'Optional', 'Variant']
SRCS = ['parse/ParseOptCondImpl.cpp', 'parse/ParseMessageImpl.cpp'] + ['parse/Parse%sFieldImpl.cpp' % k for k in KINDS]
LAYOUT_SRCS = SRCS


EXPR, LIST, FLD, PRO, SCH = N + 'ParseOptCondExprImpl', N + 'ParseOptCondListImpl', N + 'ParseFieldImpl', N + 'ParseProtocolImpl', N + 'ParseSchemaImpl'
B64 = z3.BitVecSort(64)
NPOS = z3.BitVecVal(2**64 - 1, 64)
c64 = lambda n: z3.BitVecVal(n, 64)
ch = lambda c: z3.BitVecVal(ord(c), 8)
finder = lambda k: z3.Function('str' + k, StrS, StrS, B64, B64)
cut = z3.Function('substr', StrS, B64, B64, StrS)
SP, EMPTY = strlit(' '), strlit('')

# ------------------------------------------------------------------ the text of a condition
op_at = z3.Function('spec_operator_at', StrS, StrS, B64, B64)      # the first occurrence of the operator, from the position, that is not escaped
feature = {}


def feat(name):
    if name not in feature:
        feature[name] = z3.Function('obs_' + name, ObjS, z3.BoolSort())
    return feature[name]


def ap_feat(name):
    return lambda eng, st, args, ins, mod, nm: [(st, 'ret', feat(name)(eng.ident_of(st, args[0])))]


IFACE = 'parseIsInterfaceFieldReferenceSupported'


def op_step(e, op, p):
    """definition of op_at, unfolded once"""
    q = finder('find')(e, op, p)
    return op_at(e, op, p) == z3.If(q == NPOS, NPOS, z3.If(q == 0, q, z3.If(schr(e, q - 1) == ch('\\'), op_at(e, op, q + 1), q)))


def comparison_parts(e, op):
    """(there is one, it is well formed, left, right)"""
    p = op_at(e, op, c64(0))
    l, r = finder('flno')(e, SP, p - 1), finder('ffno')(e, SP, p + slen(op))
    return p != NPOS, And(p != 0, l != NPOS, r != NPOS), cut(e, c64(0), l + 1), cut(e, r, slen(e) - r)


def deref_ok(cx, pro, c):
    return Or(c == ch('$'), And(c == ch('%'), feat(IFACE)(pro)))


def parts_now(cx, post=False):
    v = cx.new if post else cx.old
    return [v('m_' + x).z() for x in ('left', 'op', 'right')]


def has_value(cx):
    return Or(*[x != EMPTY for x in parts_now(cx)])


def pro_of(cx, k):
    return cx.eng.ident_of(cx.st1, cx.arg(k))


def node_arg(k):
    def pre(cx):
        from irv.llparse import PTR
        p = cx.arg(k)
        d = cx.eng.load(cx.st0, raw(p).add(64), PTR, cx.mod)
        return [('the node exists', Not(isnull(p))), ('the node belongs to a document', Not(isnull(d)))]
    return pre


def op_loop(eng, st, fn, blk):
    sp = eng.__dict__.setdefault('_houdini', {})
    if (fn.name, blk) not in sp:
        e, op = eng.texts_of_run

        def gen(lp):
            facts, cs = [], []
            for (oid, ck), nv in [(k, v) for k, v in lp.hav.items() if isinstance(k, tuple)]:
                old = (lp.st.obj(oid).cells.get(ck) or (0, None))[1]
                if not (z3.is_bv(nv) and nv.size() == 64) or old is None or isinstance(old, Ptr):
                    continue
                at = lambda st, oid=oid, ck=ck: bv(st.obj(oid).cells[ck][1], 64)
                facts += [op_step(e, op, at(lp.sh)), op_step(e, op, c64(0))]
                cs.append(((oid, ck, 'same'), 'nothing before the position is an operator', lambda st, at=at: op_at(e, op, at(st)) == op_at(e, op, c64(0))))
                cs.append(((oid, ck, 'in'), 'not beyond the text', lambda st, at=at: z3.ULE(at(st), slen(e))))
            return facts, cs
        sp[(fn.name, blk)] = Houdini(gen)
    return sp[(fn.name, blk)]


def texts_setup(eng, st, b, mod):
    eng.texts_of_run = None


def cmp_pre(cx):
    e, op = cx.str_arg(0).z(), cx.str_arg(1).z()
    cx.eng.texts_of_run = (e, op)
    cx.st0.assume(z3.ULT(slen(e), 1 << 40))
    return [('an operator', And(slen(op) != 0, z3.ULE(slen(op), 2)))] + node_arg(2)(cx)


def cmp_ens(cx):
    e, op = cx.str_arg(0).z(), cx.str_arg(1).z()
    old, new = parts_now(cx), parts_now(cx, True)
    had, same = has_value(cx), And(*[a == b for a, b in zip(old, new)])
    there, good, l, r = comparison_parts(e, op)
    ok = And(good, deref_ok(cx, pro_of(cx, 3), schr(e, c64(0))))
    cx.st1.assume(And(op_step(e, op, c64(0)), Implies(slen(l) != 0, schr(l, c64(0)) == schr(e, c64(0)))))      # the first character of a beginning
    return [('nothing is done twice', Implies(had, And(cx.res, same))),
            ('nothing is done without the operator', Implies(And(Not(had), Not(there)), And(cx.res, same))),
            ('accepted exactly when both operands are given and the left one is a reference', Implies(And(Not(had), there), cx.res == ok)),
            ('the operator as written', Implies(And(Not(had), there, cx.res), new[1] == op)),
            ('the left operand as written', Implies(And(Not(had), there, cx.res), new[0] == l)),
            ('the right operand as written', Implies(And(Not(had), there, cx.res), new[2] == r)),
            ('the operands are texts', Implies(And(Not(had), there, cx.res), And(new[0] != EMPTY, new[2] != EMPTY))),
            S.rejected_reports(cx)]


def bool_parts(cx, e, pro):
    """(accepted, operator, right)"""
    c0 = schr(e, c64(0))
    v = finder('ffno')(e, SP, c64(1))
    plain, neg = deref_ok(cx, pro, c0), And(c0 == ch('!'), v != NPOS, deref_ok(cx, pro, schr(e, v)))
    return Or(plain, neg), z3.If(plain, EMPTY, strlit('!')), z3.If(plain, e, cut(e, v, slen(e) - v))


def bool_pre(cx):
    e = cx.str_arg(0).z()
    cx.st0.assume(z3.ULT(slen(e), 1 << 40))
    return [('the text is not empty', slen(e) != 0)] + node_arg(1)(cx)


def bool_ens(cx):
    e = cx.str_arg(0).z()
    old, new = parts_now(cx), parts_now(cx, True)
    had, same = has_value(cx), And(*[a == b for a, b in zip(old, new)])
    ok, op, r = bool_parts(cx, e, pro_of(cx, 2))
    return [('nothing is done twice', Implies(had, And(cx.res, same))),
            ('accepted exactly when a reference is checked', Implies(Not(had), cx.res == ok)),
            ('the check as written', Implies(And(Not(had), cx.res), And(new[0] == EMPTY, new[1] == op, new[2] == r, new[2] != EMPTY))),
            S.rejected_reports(cx)]


OPERATORS = ['!=', '>=', '<=', '=', '>', '<']


def parse_pre(cx):
    e = cx.str_arg(0).z()
    cx.st0.assume(z3.ULT(slen(e), 1 << 40))
    return [('nothing was read yet', Not(has_value(cx)))] + node_arg(1)(cx)


def parse_ens(cx):
    e, pro = cx.str_arg(0).z(), pro_of(cx, 2)
    new = parts_now(cx, True)
    bok, bop, br = bool_parts(cx, e, pro)
    ok, left, op, right = bok, EMPTY, bop, br
    for o in reversed(OPERATORS):
        there, good, l, r = comparison_parts(e, strlit(o))
        ok = z3.If(there, And(good, deref_ok(cx, pro, schr(e, c64(0)))), ok)
        left, op, right = z3.If(there, l, left), z3.If(there, strlit(o), op), z3.If(there, r, right)
    return [('accepted exactly for a comparison of a reference, or a check of one', cx.res == And(slen(e) != 0, ok)),
            ('the operator as written', Implies(cx.res, new[1] == op)),
            ('the left operand as written', Implies(cx.res, new[0] == left)),
            ('the right operand as written', Implies(cx.res, new[2] == right)),
            S.rejected_reports(cx)]


# ------------------------------------------------------------------ what an operand leads to
INVALID, FIELD, VALUE, SIZE, EXISTS = range(5)
B32 = z3.BitVecSort(32)
INFO = FLD + '::ParseFieldRefInfo'
PTR_OFF, VAL_OFF, MODE_OFF = 0, 8, 40
rest = lambda s: cut(s, c64(1), z3.simplify(slen(s) - 1))


class Refs:
    """the meaning of references of one sort (functions of where they are looked up and of the text)"""

    def __init__(self, nm):
        self.none = z3.Function('spec_%s_none' % nm, ObjS, StrS, z3.BoolSort())
        self.field = z3.Function('spec_%s_field' % nm, ObjS, StrS, ObjS)
        self.value = z3.Function('spec_%s_value' % nm, ObjS, StrS, StrS)
        self.mode = z3.Function('spec_%s_mode' % nm, ObjS, StrS, B32)

    def facts(self, i, s):
        return And((self.mode(i, s) == VALUE) == (self.value(i, s) != EMPTY), Implies(self.none(i, s), And(self.mode(i, s) == INVALID, self.value(i, s) == EMPTY)))

    def put(self, eng, st, out, i, s, mod):
        st.assume(self.facts(i, s))
        eng.store(st, out, Ptr(eng.lazy_obj(st, self.field(i, s), FLD, 'found'), 0, nul=self.none(i, s)), PTR, mod)
        set_str(eng, st, out.add(VAL_OFF), SV(self.value(i, s)))
        eng.store(st, out.add(MODE_OFF), self.mode(i, s), INT(32), mod)


SIB, INNER_REF = Refs('sibling'), Refs('inner')


iface_refs = z3.Function('spec_interface_refs', ObjS, StrS, ObjS)
iface_n = z3.Function('spec_interface_refs_n', ObjS, B64)
only = z3.Function('spec_refs_of_mode', ObjS, B32, ObjS)


def ref_list(eng, st, ident, mod, mode=None):
    """the sequence of references the identity stands for"""
    k = ('refs', stl.tkey(ident))
    sid = st.g.get(k)
    if sid is None:
        sid = eng.stable(st, (k, INFO, 'vec'), [ident], lambda: stl.new_store(eng, st, 'refs', INFO, mod, iface_n(ident), ident))
        n = iface_n(ident)
        st.g[('len', sid)] = n
        st.g[k] = sid
        st.assume(z3.ULT(n, 1 << 40))
        v = z3.FreshConst(B64, 'rf')
        f, m = at_ref(eng, st, sid, v, mod)
        st.foralls.append(Forall(0, n, v, And(Not(isnull(f)), m == mode if mode is not None else z3.BoolVal(True)), [], sid))
    return sid, st.g[('len', sid)]


def at_ref(eng, st, sid, k, mod):
    p = stl.idx_ptr(eng, st, sid, k)
    return eng.load(st, p, PTR, mod), bv(eng.load(st, p.add(MODE_OFF), INT(32), mod), 32)


def ap_iface(eng, st, args, ins, mod, nm):
    i = iface_refs(eng.ident_of(st, args[1]), get_str(eng, st, args[2]).z())
    stl.set_val(eng, st, args[0], VV(*ref_list(eng, st, i, mod)))
    return [(st, 'ret', None)]


def ap_only(mode):
    def ap(eng, st, args, ins, mod, nm):
        v = stl.get_vec(eng, st, args[0], INFO, mod)
        stl.set_val(eng, st, args[0], VV(*ref_list(eng, st, only(st.obj(v.store).ident, z3.BitVecVal(mode, 32)), mod, mode)))
        return [(st, 'ret', None)]
    return ap


cmp_field = lambda a, b: kinds_comparable(real(a), real(b))
cmp_value = z3.Function('spec_comparable_to_value', ObjS, StrS, z3.BoolSort())


def ap_cmp_value(eng, st, args, ins, mod, nm):
    r = cmp_value(eng.ident_of(st, raw(args[0])), get_str(eng, st, args[1]).z())
    B.may_report(eng, st, r)
    return [(st, 'ret', r)]


class Some:
    """some element of a list of references satisfies a condition"""

    def __init__(self, cx, ident, what, pred, *key):
        eng, st = cx.eng, cx.st1
        sid, n = ref_list(eng, st, ident, cx.mod)
        self.b = z3.Function('spec_some_' + what, *([ObjS] * (1 + len(key)) + [z3.BoolSort()]))(ident, *key)
        v, w = z3.FreshConst(B64, 'sv'), z3.FreshConst(B64, 'witness')
        self.n, self.sid = n, sid
        f, m = at_ref(eng, st, sid, v, cx.mod)
        g, k = at_ref(eng, st, sid, w, cx.mod)
        ident = lambda p: eng.ident_of(st, raw(p))
        st.foralls.append(Forall(0, n, v, Implies(pred(ident(f), m), self.b), [], sid))
        st.assume(Implies(self.b, And(z3.ULT(w, n), pred(ident(g), k))))
        stl.inst(st, sid, w)


EXISTS_F, SIZE_F = 'parseIsExistsCheckInConditionalsSupported', 'parseIsSizeCompInConditionalsSupported'


def written(cx):
    v = cx.old
    return [v('m_' + x).z() for x in ('left', 'op', 'right')]


def shape_pre(*conds):
    def pre(cx):
        l, o, r = written(cx)
        L0, R0 = schr(l, c64(0)), schr(r, c64(0))
        table = {'right': r != EMPTY, 'left': l != EMPTY, 'single': l == EMPTY, 'r$': R0 == ch('$'), 'r%': R0 == ch('%'), 'l$': L0 == ch('$'), 'l%': L0 == ch('%'), 'rref': Or(R0 == ch('$'), R0 == ch('%')), 'lref': Or(L0 == ch('$'), L0 == ch('%'))}
        for t in (l, r):
            cx.st0.assume(And(z3.ULT(slen(t), 1 << 40), (slen(t) == 0) == (t == EMPTY)))
        return [('the operands are as read', And(*[table[c] for c in conds]))]
    return pre


def node_pre(k):
    return node_arg(k)


def sib_single(cx, pro, fields, r):
    m = SIB.mode(fields, rest(r))
    cx.st1.assume(SIB.facts(fields, rest(r)))
    return And(Not(SIB.none(fields, rest(r))), Or(m == VALUE, And(m == EXISTS, feat(EXISTS_F)(pro))))


def ids(cx, fields=True):
    k = 0 if fields else -1
    return (cx.eng.ident_of(cx.st0, cx.arg(0)) if fields else None), cx.eng.ident_of(cx.st0, cx.arg(k + 2)), z3.Function('obs_curr_schema', ObjS, ObjS)(cx.eng.ident_of(cx.st0, cx.arg(k + 2)))


def single_sib_ens(cx):
    f, pro, _ = ids(cx)
    return [('accepted exactly for an existing value of an existing field, or a field that may be missing', cx.res == sib_single(cx, pro, f, written(cx)[2])), S.rejected_reports(cx)]


SET = S.KINDS.index('set')


def bit_check(cx, sch, r):
    return Some(cx, iface_refs(sch, rest(r)), 'bit', lambda f, m: And(m == VALUE, S.field_kind(f) == SET)).b


def iface_bit_ens(cx):
    _, pro, sch = ids(cx, False)
    return [('accepted exactly for an existing bit of a set of some interface', cx.res == bit_check(cx, sch, written(cx)[2])), S.rejected_reports(cx)]


def single(cx):
    f, pro, sch = ids(cx)
    r = written(cx)[2]
    return z3.If(schr(r, c64(0)) == ch('$'), sib_single(cx, pro, f, r), bit_check(cx, sch, r))


def single_ens(cx):
    return [('accepted exactly for a proper check of a reference', cx.res == single(cx)), S.rejected_reports(cx)]


def size_ens(cx):
    r = written(cx)[2]
    return [('a size is compared to a number', cx.res == B.num_i_ok(r, z3.BitVecVal(0, 32))), S.rejected_reports(cx)]


BF, BS = z3.BitVecVal(FIELD, 32), z3.BitVecVal(SIZE, 32)


def sib_cmp(cx):
    fs, pro, sch = ids(cx)
    l, _, r = written(cx)
    a, b = rest(l), rest(r)
    lf, rf = SIB.field(fs, a), SIB.field(fs, b)
    right = z3.If(schr(r, c64(0)) == ch('$'), And(Not(SIB.none(fs, b)), SIB.mode(fs, b) == FIELD, cmp_field(lf, rf)),
                  z3.If(schr(r, c64(0)) == ch('%'), Some(cx, only(iface_refs(sch, b), BF), 'comparable', lambda f, m: cmp_field(lf, f), lf).b, cmp_value(lf, r)))
    return And(Not(SIB.none(fs, a)), z3.If(SIB.mode(fs, a) == SIZE, And(feat(SIZE_F)(pro), B.num_i_ok(r, z3.BitVecVal(0, 32))), And(SIB.mode(fs, a) == FIELD, right)))


def sib_cmp_ens(cx):
    return [('accepted exactly for an existing field and an operand comparable to it', cx.res == sib_cmp(cx)), S.rejected_reports(cx)]


def some_cmp(cx, refs, other, swapped=False):
    """some of the references leads to a field comparable to the other one"""
    return Some(cx, refs, 'comparable_to' if swapped else 'comparable', lambda f, m: cmp_field(f, other) if swapped else cmp_field(other, f), other).b


def pair(cx, left, right):
    """some reference of one list leads to a field comparable to that of some reference of the other"""
    eng, st = cx.eng, cx.st1
    b = z3.Function('spec_some_comparable_pair', ObjS, ObjS, z3.BoolSort())(left, right)
    (ls, ln), (rs, rn) = ref_list(eng, st, left, cx.mod), ref_list(eng, st, right, cx.mod)
    f = lambda sid, k: eng.ident_of(st, raw(at_ref(eng, st, sid, k, cx.mod)[0]))
    for i in list(st.inst.get(ls, ())):
        for j in list(st.inst.get(rs, ())):
            st.assume(Implies(And(z3.ULT(i, ln), z3.ULT(j, rn), cmp_field(f(ls, i), f(rs, j))), b))
    v, w = z3.FreshConst(B64, 'witness'), z3.FreshConst(B64, 'witness')
    st.assume(Implies(b, And(z3.ULT(v, ln), z3.ULT(w, rn), cmp_field(f(ls, v), f(rs, w)))))
    stl.inst(st, ls, v)
    stl.inst(st, rs, w)
    return b


def iface_cmp(cx):
    fs, pro, sch = ids(cx)
    l, _, r = written(cx)
    refs, rrefs = iface_refs(sch, rest(l)), iface_refs(sch, rest(r))
    left, right = only(refs, BF), only(rrefs, BF)
    rf = SIB.field(fs, rest(r))
    cx.st1.assume(SIB.facts(fs, rest(r)))
    some = lambda i: iface_n(i) != 0
    both = pair(cx, left, right)
    tov = Some(cx, left, 'comparable_to_value', lambda f, m: cmp_value(f, r)).b
    how = z3.If(schr(r, c64(0)) == ch('$'), And(Not(SIB.none(fs, rest(r))), SIB.mode(fs, rest(r)) == FIELD, some_cmp(cx, left, rf, True)),
                z3.If(schr(r, c64(0)) == ch('%'), And(some(right), both), tov))
    return z3.If(some(only(refs, BS)), And(feat(SIZE_F)(pro), B.num_i_ok(r, z3.BitVecVal(0, 32))), And(some(left), how))


def iface_cmp_ens(cx):
    return [('accepted exactly for references comparable to the operand', cx.res == iface_cmp(cx)), S.rejected_reports(cx)]


def starts(t, c):
    return And(t != EMPTY, schr(t, c64(0)) == ch(c))


def texts_known(cx):
    for t in written(cx):
        cx.st0.assume(And(z3.ULT(slen(t), 1 << 40), (slen(t) == 0) == (t == EMPTY)))


def cmp_all(cx):
    return z3.If(starts(written(cx)[0], '$'), sib_cmp(cx), iface_cmp(cx))


def compare_pre(cx):
    l, _, r = written(cx)
    return shape_pre('left', 'right', 'lref')(cx) + node_pre(1)(cx)


def compare_ens(cx):
    return [('accepted exactly for a proper comparison', cx.res == cmp_all(cx)), S.rejected_reports(cx)]


def verify_pre(cx):
    l, _, r = written(cx)
    texts_known(cx)
    ref = lambda t: Or(starts(t, '$'), starts(t, '%'))
    return node_pre(1)(cx) + [('the condition was read', And(r != EMPTY, z3.If(l == EMPTY, ref(r), ref(l))))]


def verify_ens(cx):
    return [('accepted exactly for a proper condition on these fields', cx.res == z3.If(written(cx)[0] == EMPTY, single(cx), cmp_all(cx))), S.rejected_reports(cx)]


def has_if_ens(cx):
    l, _, r = written(cx)
    return [('tells whether an operand refers to an interface', cx.res == Or(starts(l, '%'), starts(r, '%')))]


# ------------------------------------------------------------------ combined conditions
COND = N + 'ParseOptCondImpl'
UPTR = 'std::unique_ptr<%s>' % COND
cond_ok = z3.Function('spec_condition_ok', ObjS, ObjS, ObjS, z3.BoolSort())
cond_if = z3.Function('spec_condition_of_interface', ObjS, z3.BoolSort())


def conds_of(cx):
    st = cx.st1
    v = stl.get_vec(cx.eng, st, cx.arg('this').add(40), UPTR, cx.mod)
    return v.store, bv(v.n, 64), lambda k: cx.eng.ident_of(st, raw(cx.eng.load(st, stl.idx_ptr(cx.eng, st, v.store, k), PTR, cx.mod)))


def list_setup(eng, st, b, mod):
    this = b['this'] if isinstance(b, dict) else b
    v = stl.get_vec(eng, st, this.add(40), UPTR, mod)
    x = z3.FreshConst(B64, 'cv')
    p = eng.load(st, stl.idx_ptr(eng, st, v.store, x), PTR, mod)
    st.foralls.append(Forall(0, v.n, x, Not(isnull(p)), [], v.store))


def every(cx, b, pred):
    """b stands for: every combined condition satisfies pred"""
    sid, n, at = conds_of(cx)
    st = cx.st1
    v, w = z3.FreshConst(B64, 'ev'), z3.FreshConst(B64, 'witness')
    st.foralls.append(Forall(0, n, v, Implies(b, pred(at(v))), [], sid))
    st.assume(Implies(Not(b), And(z3.ULT(w, n), Not(pred(at(w))))))
    stl.inst(st, sid, w)
    return b


def list_ok_ens(cx):
    me, f, pro = cx.eng.ident_of(cx.st0, cx.arg('this')), cx.eng.ident_of(cx.st0, cx.arg(0)), cx.eng.ident_of(cx.st0, cx.arg(2))
    b = every(cx, z3.Function('spec_all_ok', ObjS, ObjS, ObjS, z3.BoolSort())(me, f, pro), lambda c: cond_ok(c, f, pro))
    return [('accepted exactly when all the combined conditions are', cx.res == b), S.rejected_reports(cx)]


def list_if_ens(cx):
    me = cx.eng.ident_of(cx.st0, cx.arg('this'))
    b = every(cx, z3.Function('spec_none_of_interface', ObjS, z3.BoolSort())(me), lambda c: Not(cond_if(c)))
    return [('tells whether one of the combined conditions refers to an interface', cx.res == Not(b))]


def ap_cond_ok(eng, st, args, ins, mod, nm):
    r = cond_ok(eng.ident_of(st, raw(args[0])), eng.ident_of(st, raw(args[1])), eng.ident_of(st, raw(args[3])))
    B.may_report(eng, st, r)
    return [(st, 'ret', r)]


def ap_cond_if(eng, st, args, ins, mod, nm):
    return [(st, 'ret', cond_if(eng.ident_of(st, raw(args[0]))))]


# ------------------------------------------------------------------ how the operands are told
def info_ens(which):
    def ens(cx):
        t = written(cx)[which]
        r, st = cx.arg('sret'), cx.st1
        ty, mode = bv(cx.eng.load(st, r.add(INFO_TYPE), INT(32), cx.mod), 32), bv(cx.eng.load(st, r.add(INFO_MODE), INT(32), cx.mod), 32)
        acc = get_str(cx.eng, st, r.add(INFO_ACC)).z()
        ref = Or(starts(t, '$'), starts(t, '%'))
        size, exists = And(ref, z3.UGT(slen(t), 1), schr(t, c64(1)) == ch('#')), And(ref, z3.UGT(slen(t), 1), schr(t, c64(1)) == ch('?'))
        n32 = lambda k: z3.BitVecVal(k, 32)
        return [('the operand is of the kind written', ty == z3.If(t == EMPTY, n32(0), z3.If(starts(t, '$'), n32(2), z3.If(starts(t, '%'), n32(3), n32(1))))),
                ('the access is the one written', mode == z3.If(size, n32(1), z3.If(exists, n32(2), n32(0)))),
                ('the rest is what is accessed', acc == z3.If(t == EMPTY, EMPTY, z3.If(Not(ref), t, z3.If(Or(size, exists), cut(t, c64(2), z3.simplify(slen(t) - 2)), rest(t)))))]
    return ens


def info_pre(cx):
    texts_known(cx)
    return []


# ------------------------------------------------------------------ which fields and values are comparable
K = {n: S.KINDS.index(n) for n in S.KINDS}
real = C19.real_kind
NUMS = ('int', 'enum')


def kinds_comparable(a, b):
    num = lambda k: Or(*[k == K[n] for n in NUMS])
    return Or(a == b, And(num(a), num(b)))


def me_is(*kinds):
    """a field of the class: its kind is the one of the class"""
    def pre(cx):
        return [('the kind is that of the class', Or(*[S.field_kind(cx.eng.ident_of(cx.st0, cx.arg('this'))) == K[k] for k in kinds]))]
    return pre


def two(cx):
    return cx.eng.ident_of(cx.st0, cx.arg('this')), cx.eng.ident_of(cx.st0, raw(cx.arg(0)))


def know(cx, *idents):
    for i in idents:
        for st in (cx.st0, cx.st1) if getattr(cx, 'st1', None) is not None else (cx.st0,):
            st.assume(C19.rk_fact(cx.eng, st, i, cx.mod))


def cmp_pre2(*kinds):
    def pre(cx):
        a, b = two(cx)
        know(cx, a, b)
        out = [('the other one is not a reference', S.field_kind(b) != K['ref']), ('the kinds differ', S.field_kind(a) != S.field_kind(b))]
        return out + (me_is(*kinds)(cx) if kinds else [])
    return pre


def cmp_ens2(cx):
    a, b = two(cx)
    know(cx, a, b)
    return [('comparable exactly when of the same kind, or both numbers', cx.res == kinds_comparable(real(a), real(b)))]


def field_cmp_pre(cx):
    know(cx, *two(cx))
    return []


def ap_cmp_rec(eng, st, args, ins, mod, nm):
    a, b = eng.ident_of(st, raw(args[0])), eng.ident_of(st, raw(args[1]))
    return [(st, 'ret', kinds_comparable(real(a), real(b)))]


def ap_cmp_impl(eng, st, args, ins, mod, nm):
    a, b = eng.ident_of(st, raw(args[0])), eng.ident_of(st, raw(args[1]))
    eng.oblige(st, 'the other field is not a reference', S.field_kind(b) != K['ref'], 'pre', eng.loc())
    eng.oblige(st, 'the kinds differ', S.field_kind(a) != S.field_kind(b), 'pre', eng.loc())
    return ap_cmp_rec(eng, st, args, ins, mod, nm)


cmp_impl = z3.Function('spec_value_of_kind', ObjS, StrS, z3.BoolSort())
ZERO32 = z3.BitVecVal(0, 32)


def ap_cmp_val_impl(eng, st, args, ins, mod, nm):
    r = cmp_impl(eng.ident_of(st, raw(args[0])), get_str(eng, st, args[1]).z())
    B.may_report(eng, st, r)
    return [(st, 'ret', r)]


def value_ens(cx):
    i, t = cx.eng.ident_of(cx.st0, cx.arg('this')), cx.str_arg(0).z()
    sem = cx.old('m_state.m_semanticType')
    return [('a version or a length is compared to a number, others to values of the kind', cx.res == z3.If(Or(sem == 1, sem == 3), B.num_i_ok(t, ZERO32), cmp_impl(i, t)))]


def never(cx):
    return [('never', Not(bl(cx.res)))]


# ------------------------------------------------------------------ which accesses a field has
ref_impl = z3.Function('spec_access_of_kind', ObjS, B32, z3.BoolSort())
ref_ok = z3.Function('spec_access', ObjS, B32, z3.BoolSort())
NYD = z3.BitVecVal(2**32 - 1, 32)


def access(cx, i, t, since, depr):
    return And(t != INVALID, Or(t == FIELD, And(t == EXISTS, Or(since != 0, depr != NYD)), ref_impl(i, t)))


def access_ens(cx):
    i, t = cx.eng.ident_of(cx.st0, cx.arg('this')), bv(cx.arg(0), 32)
    v = V(cx.eng, cx.st0, cx.arg('this'), N + 'ParseObject', cx.mod)
    return [('accessible exactly when itself, when it may be missing, or when its kind allows', cx.res == access(cx, i, t, v('m_rState.m_sinceVersion'), v('m_rState.m_deprecated')))]


ACCESS = dict(Int=VALUE, Enum=VALUE, Set=VALUE, Float=VALUE, String=SIZE, Data=SIZE, List=SIZE, Optional=EXISTS)


def access_kind(mode):
    return lambda cx: [('only the access of the kind', cx.res == (bv(cx.arg(0), 32) == mode))]


def target(cx):
    return C19.ref_target(cx.eng, cx.st0, cx.eng.ident_of(cx.st0, cx.arg('this')))


def ref_pre(cx):
    return [('an accepted reference has a target', Not(target(cx)[1]))]


def ap_access(eng, st, args, ins, mod, nm):
    return [(st, 'ret', ref_ok(eng.ident_of(st, raw(args[0])), bv(args[1], 32)))]


def ap_access_impl(eng, st, args, ins, mod, nm):
    return [(st, 'ret', ref_impl(eng.ident_of(st, raw(args[0])), bv(args[1], 32)))]


def fields_contracts():
    F, R = FLD, N + 'ParseRefFieldImpl'
    D = lambda f, cls=F: cls + '::' + f
    out = [Contract('virtual ' + D('parseIsComparableToFieldImpl'), cls=F, apply_fn=ap_cmp_impl, trusted=True, note='proved for each kind'),
           Contract('virtual ' + D('parseIsComparableToValueImpl'), cls=F, apply_fn=ap_cmp_val_impl, trusted=True, note='by kind'),
           Contract('virtual ' + D('parseIsValidRefTypeImpl'), cls=F, apply_fn=ap_access_impl, trusted=True, note='proved for each kind'),
           Contract(D('parseIsValidRefType'), apply_fn=ap_access, trusted=True, note='proved apart')]
    f = D('parseIsComparableToField')
    out += [Contract(f, label=f + ' (proof)', requires=field_cmp_pre, ensures=cmp_ens2, modifies=[], callable=False),
            Contract(D('parseIsComparableToValue'), label=D('parseIsComparableToValue') + ' (proof)', ensures=value_ens, modifies=[], callable=False),
            Contract(D('parseIsValidRefType'), label=D('parseIsValidRefType') + ' (proof)', ensures=access_ens, modifies=[], callable=False),
            Contract(D('parseIsComparableToFieldImpl'), requires=cmp_pre2('float', 'string', 'data', 'list', 'bundle', 'bitfield', 'optional', 'variant'), ensures=cmp_ens2, modifies=[], callable=False),
            Contract(D('parseIsComparableToValueImpl'), ensures=never, modifies=[], callable=False),
            Contract(D('parseIsValidRefTypeImpl'), ensures=never, modifies=[], callable=False)]
    for k in ('Int', 'Enum', 'Set', 'Ref'):
        n = N + 'Parse%sFieldImpl::parseIsComparableToFieldImpl' % k
        out.append(Contract(n, requires=(lambda k: lambda cx: cmp_pre2(k.lower())(cx) + (ref_pre(cx) if k == 'Ref' else []))(k), ensures=cmp_ens2, modifies=[], callable=False))
    for k, m in ACCESS.items():
        out.append(Contract(N + 'Parse%sFieldImpl::parseIsValidRefTypeImpl' % k, ensures=access_kind(m), modifies=[], callable=False))
    out += [Contract(R + '::parseIsValidRefTypeImpl', requires=ref_pre, ensures=lambda cx: [('what the target allows', cx.res == ref_ok(target(cx)[0], bv(cx.arg(0), 32)))], modifies=[], callable=False),
            Contract(R + '::parseIsComparableToValueImpl', requires=ref_pre, ensures=lambda cx: [('what the target says', cx.res == cmp_value(target(cx)[0], cx.str_arg(0).z()))], modifies=[], callable=False)]
    return out


# ------------------------------------------------------------------ what a reference leads to
ADDR_NAME = lambda cx, st, i: V(cx.eng, st, Ptr(cx.eng.lazy_obj(st, i, FLD, 'field')), FLD, cx.mod)('m_state.m_name').z()
MEMBERS = 'std::vector<std::unique_ptr<%s> >' % FLD


def told(cx, none, field, mode, value=None):
    """the information returned"""
    eng, st, r = cx.eng, cx.st1, cx.arg('sret')
    f, v, m = eng.load(st, r, PTR, cx.mod), get_str(eng, st, r.add(VAL_OFF)).z(), bv(eng.load(st, r.add(MODE_OFF), INT(32), cx.mod), 32)
    there = z3.BoolVal(False) if f.obj is None else eng.ident_of(st, raw(f)) == field
    value = EMPTY if value is None else value
    return [('leads somewhere exactly when it should', bl(isnull(f)) == none), ('leads to the field', Or(none, there)),
            ('in the way it is written', m == z3.If(none, z3.BitVecVal(INVALID, 32), mode)), ('to the value', v == z3.If(none, EMPTY, value)), ('a value is told for a reference to a value', (m == VALUE) == (v != EMPTY))]


def put(refs):
    def ap(eng, st, args, ins, mod, nm):
        i, s = eng.ident_of(st, raw(args[1])), get_str(eng, st, args[2]).z()
        refs.put(eng, st, args[0], i, s, mod)
        if refs is not SIB:
            st.g['gh:inner'] = (i, s)
        return [(st, 'ret', None)]
    return ap


INNER_IMPL = Refs('inner_of_kind')


def like(cx, refs, i, s):
    cx.st1.assume(refs.facts(i, s))
    return refs.none(i, s), refs.field(i, s), refs.mode(i, s), refs.value(i, s)


def choose(c, a, b):
    return tuple(z3.If(c, x, y) for x, y in zip(a, b))


def inner_ens(cx):
    me, s = cx.eng.ident_of(cx.st0, cx.arg('this')), cx.str_arg(0).z()
    cx.st1.assume((slen(s) == 0) == (s == EMPTY))
    ms = C19.members_of(me)
    q = stl.get_vec(cx.eng, cx.st1, Ptr(cx.eng.lazy_obj(cx.st1, ms, None, 'members')), 'std::unique_ptr<%s>' % FLD, cx.mod)
    itself = (z3.BoolVal(False), me, z3.BitVecVal(FIELD, 32), EMPTY)
    return told(cx, *choose(s == EMPTY, itself, choose(bv(q.n, 64) != 0, like(cx, SIB, ms, s), like(cx, INNER_IMPL, me, s))))


def text_pre(k=0):
    def pre(cx):
        s = cx.str_arg(k).z()
        cx.st0.assume(And((slen(s) == 0) == (s == EMPTY), z3.ULT(slen(s), 1 << 40)))
        return []
    return pre


def given_pre(cx):
    text_pre()(cx)
    return [('there is a text', cx.str_arg(0).z() != EMPTY)]


def value_ref_ens(cls, member, other):
    def ens(cx):
        me, s = cx.eng.ident_of(cx.st0, cx.arg('this')), cx.str_arg(0).z()
        known = map_has(cx, N + cls, member, other, s)
        return told(cx, Not(known), me, z3.BitVecVal(VALUE, 32), s)
    return ens


def map_has(cx, cls, member, other, key):
    p = V(cx.eng, cx.st1, cx.arg('this'), cls, cx.mod)
    off, ty = p.at(member)
    k = stl.KeyTy('std::string')
    if other:
        k.comp = other
    a = stl.targs(ty, 'std::map')
    nt = stl.node_type(a[0], a[1])
    m = stl.get_vec(cx.eng, cx.st1, cx.arg('this').add(off), nt, cx.mod, 'map', k, False)
    (s, i), = stl.map_find(cx.eng, cx.st1, m, k, SV(key), cx.mod)
    return z3.ULT(bv(i, 64), bv(m.n, 64))


def ref_inner_ens(cx):
    return told(cx, *like(cx, INNER_REF, target(cx)[0], cx.str_arg(0).z()))


def no_inner_ens(cx):
    return told(cx, z3.BoolVal(True), cx.eng.ident_of(cx.st0, cx.arg('this')), z3.BitVecVal(0, 32))


DOT = strlit('.')


def opt_inner_ens(cx):
    s = cx.str_arg(0).z()
    p = finder('find')(s, DOT, c64(0))
    dot = z3.ULT(p, slen(s))
    v = V(cx.eng, cx.st1, cx.arg('this'), N + 'ParseOptionalFieldImpl', cx.mod)
    f = target_of(cx)
    name = z3.If(dot, cut(s, c64(0), p), s)
    left = z3.If(dot, cut(s, p + 1, z3.simplify(slen(s) - p - 1)), EMPTY)
    none, field, mode, value = like(cx, INNER_REF, f, left)
    return told(cx, Or(name != ADDR_NAME(cx, cx.st1, f), none), field, mode, value)


def target_of(cx):
    v = V(cx.eng, cx.st1, cx.arg('this'), N + 'ParseOptionalFieldImpl', cx.mod)
    return cx.eng.ident_of(cx.st1, raw(v('m_field')))


def opt_pre(cx):
    p = cx.view(cx.args['this'], N + 'ParseOptionalFieldImpl')('m_field')
    return given_pre(cx) + [('an accepted optional has a field', Not(isnull(p)))]


def sibling_ens(cx):
    eng, st = cx.eng, cx.st1
    fs, s = eng.ident_of(cx.st0, cx.arg(0)), cx.str_arg(1).z()
    c = schr(s, c64(0))
    prefixed = And(s != EMPTY, Or(c == ch('#'), c == ch('?')))
    none, field, mode, value = like(cx, SIB, fs, rest(s))
    want = z3.If(c == ch('#'), z3.BitVecVal(SIZE, 32), z3.BitVecVal(EXISTS, 32))
    refused = Or(none, mode != FIELD, Not(ref_ok(field, want)))
    deep = st.g.get('gh:inner')
    q = cx.deref(0, MEMBERS)
    p = finder('ffo')(s, DOT, c64(0))
    dot = z3.ULT(p, slen(s))
    name = z3.If(dot, cut(s, c64(0), p), s)
    out = [(a, Implies(prefixed, b)) for a, b in told(cx, refused, field, want)]
    if deep is not None:
        f, left = deep
        out += [('only without a mode', Not(prefixed)), ('looked for in the sibling of the name', ADDR_NAME(cx, st, f) == name),
                ('the rest is looked for there', left == z3.If(dot, cut(s, p + 1, z3.simplify(slen(s) - (p + 1))), EMPTY))]
        return out + told(cx, *like(cx, INNER_REF, f, left))
    v = z3.FreshConst(B64, 'any')
    q.inst(v)
    out += [('nothing is missed', Implies(And(Not(prefixed), z3.ULT(v, q.n)), Or(name == EMPTY, ADDR_NAME(cx, st, eng.ident_of(st, raw(q[v]))) != name)))]
    return out + [(a, Implies(Not(prefixed), b)) for a, b in told(cx, z3.BoolVal(True), field, mode)]


def sibling_pre(cx):
    text_pre(1)(cx)
    s = cx.str_arg(1).z()
    for t in (cut(s, c64(0), finder('ffo')(s, DOT, c64(0))),):
        cx.st0.assume((slen(t) == 0) == (t == EMPTY))
    return []


def deref_contracts():
    out = [Contract('virtual ' + FLD + '::parseProcessInnerRefImpl', cls=FLD, apply_fn=put(INNER_IMPL), trusted=True, note='proved for each kind'),
           Contract(FLD + '::parseProcessInnerRef', apply_fn=put(INNER_REF), trusted=True, note='proved apart'),
           Contract('virtual ' + FLD + '::parseMembersImpl', cls=FLD, apply_fn=C19.ap_members, trusted=True, note='the members of a field'),
           Contract(FLD + '::parseProcessInnerRef', label=FLD + '::parseProcessInnerRef (proof)', requires=text_pre(), ensures=inner_ens, modifies=[], callable=False),
           Contract(FLD + '::parseProcessSiblingRef', label=FLD + '::parseProcessSiblingRef (proof)', requires=sibling_pre, ensures=sibling_ens, modifies=[], callable=False),
           Contract(FLD + '::parseProcessInnerRefImpl', requires=given_pre, ensures=no_inner_ens, modifies=[], callable=False),
           Contract(N + 'ParseRefFieldImpl::parseProcessInnerRefImpl', requires=ref_pre, ensures=ref_inner_ens, modifies=[], callable=False),
           Contract(N + 'ParseOptionalFieldImpl::parseProcessInnerRefImpl', requires=opt_pre, ensures=opt_inner_ens, modifies=[], callable=False)]
    for cls, m in (('Int', 'm_state.m_specials'), ('Enum', 'm_state.m_values'), ('Set', 'm_state.m_bits'), ('Float', 'm_state.m_specials')):
        out.append(Contract(N + 'Parse%sFieldImpl::parseProcessInnerRefImpl' % cls, requires=given_pre, ensures=value_ref_ens('Parse%sFieldImpl' % cls, m, None), modifies=[], callable=False))
    return out


# ------------------------------------------------------------------ conditions of a field or a message, as they are read and verified
BUN, BIT, OPT, MSG = N + 'ParseBundleFieldImpl', N + 'ParseBitfieldFieldImpl', N + 'ParseOptionalFieldImpl', N + 'ParseMessageImpl'
expr_ok = z3.Function('spec_condition_text_ok', ObjS, StrS, z3.BoolSort())
expr_if = z3.Function('spec_condition_text_of_interface', StrS, z3.BoolSort())
expr_verified = z3.Function('spec_condition_text_verified', StrS, ObjS, ObjS, z3.BoolSort())
COMPOSITE = 'parseIsValidCondSupportedInCompositeFields'
prop_feature = z3.Function('obs_property_supported', ObjS, StrS, z3.BoolSort())


def ap_expr_parse(eng, st, args, ins, mod, nm):
    t = get_str(eng, st, args[1]).z()
    r = expr_ok(eng.ident_of(st, raw(args[3])), t)
    B.may_report(eng, st, r)
    st.g['gh:cond'] = t
    return [(st, 'ret', r)]


def ap_expr_if(eng, st, args, ins, mod, nm):
    return [(st, 'ret', expr_if(st.g['gh:cond']))]


def ap_expr_verify(eng, st, args, ins, mod, nm):
    r = expr_verified(st.g['gh:cond'], eng.ident_of(st, raw(args[1])), eng.ident_of(st, raw(args[3])))
    B.may_report(eng, st, r)
    st.g['gh:verified'] = eng.ident_of(st, raw(args[1]))
    return [(st, 'ret', r)]


def ap_prop_feature(eng, st, args, ins, mod, nm):
    return [(st, 'ret', prop_feature(eng.ident_of(st, raw(args[0])), get_str(eng, st, args[1]).z()))]


def owner_view(cx, cls):
    return cx.old if cls == MSG else cx.view(cx.args['this'], cls)


def owner_protocol(cx):
    return cx.eng.ident_of(cx.st0, raw(cx.old('m_protocol')))


def has_node(cls):
    return lambda cx: B.node_ok(cx) if cls == MSG else B.node_ok_of(cx, FLD)


def single_cond_ens(cls, members, pri):
    """a condition given as a property"""
    def ens(cx):
        eng, st = cx.eng, cx.st1
        t, pro = cx.str_arg(0), owner_protocol(cx)
        c = B.prop_count(eng, cx.st0, cx.old.ptr('m_props'), t, cx.mod, st)
        s = S.prop_str(cx, t.z())
        fs = cx.eng.ident_of(cx.st0, owner_view(cx, cls).ptr(members))
        if cls == MSG:
            sup, extra = prop_feature(pro, t.z()), z3.BoolVal(True)
            fs = st.g.get('gh:verified', fs)
            own = cx.eng.ident_of(cx.st0, owner_view(cx, cls).ptr(members))
            where = [('verified against the fields of the message exactly when they may be used', Implies(bl(cx.arg(2)), fs == own))]
        else:
            sup, extra, where = feat(COMPOSITE)(pro), Not(expr_if(s)), []
        used = And(c != 0, sup)
        good = And(expr_ok(pro, s), extra, expr_verified(s, fs, pro))
        kept = same_cond(cx, 1)
        return [('accepted exactly when not given, or given once, well formed and fitting the fields', cx.res == And(z3.ULE(c, 1), Implies(used, good))),
                ('the condition is replaced exactly when it is given', Implies(cx.res, kept == Not(used))), S.rejected_reports(cx)] + where
    return ens


def same_cond(cx, k):
    a, b = cx.eng.load(cx.st0, raw(cx.arg(k)), PTR, cx.mod), cx.eng.load(cx.st1, raw(cx.arg(k)), PTR, cx.mod)
    if b.obj is None:
        return bl(isnull(a))
    if cx.st1.obj(b.obj).ident is None:
        return z3.BoolVal(False)          # an object made here
    return And(bl(isnull(a)) == bl(isnull(b)), cx.eng.ident_of(cx.st0, raw(a)) == cx.eng.ident_of(cx.st1, raw(b)))


def optional_verify_ens(cx):
    c = cx.view(cx.args['this'], OPT)('m_cond')
    b = z3.BoolVal(True) if c.obj is None else cond_ok(cx.eng.ident_of(cx.st0, raw(c)), cx.eng.ident_of(cx.st0, cx.arg(0)), owner_protocol(cx))
    return [('accepted exactly when there is no condition or it fits the fields before', cx.res == Or(bl(isnull(c)), b)), S.rejected_reports(cx)]


replaced_n = z3.Function('obs_replace_elements', ObjS, B64)


def ap_replaced(eng, st, args, ins, mod, nm):
    n = replaced_n(eng.ident_of(st, raw(args[1])))
    sid = stl.new_store(eng, st, 'children', '_xmlNode*', mod, n, z3.FreshConst(ObjS, 'children'))
    st.assume(z3.ULT(n, 1 << 40))
    stl.set_val(eng, st, args[0], VV(sid, n))
    return [(st, 'ret', None)]


def reused_ens(cls, cond, members):
    def ens(cx):
        v = owner_view(cx, cls)
        c = v(cond)
        node = cx.eng.ident_of(cx.st0, raw(cx.old('m_node')))
        b = cond_ok(cx.eng.ident_of(cx.st0, raw(c)), cx.eng.ident_of(cx.st0, v.ptr(members)), owner_protocol(cx))
        return [('refused exactly when the condition taken over does not fit the replaced fields', cx.res == Or(bl(isnull(c)), replaced_n(node) == 0, b)), S.rejected_reports(cx)]
    return ens


def owner_contracts():
    UP = 'std::unique_ptr<%s>' % COND
    out = [Contract(EXPR + '::parse', apply_fn=ap_expr_parse, trusted=True, note='proved apart'),
           Contract(EXPR + '::parseHasInterfaceReferenceImpl', apply_fn=ap_expr_if, trusted=True, note='proved apart'),
           Contract(EXPR + '::parseVerifyImpl', apply_fn=ap_expr_verify, trusted=True, note='proved apart'),
           Contract(PRO + '::' + COMPOSITE, apply_fn=ap_feat(COMPOSITE), trusted=True, note='C14'),
           Contract(PRO + '::parseIsPropertySupported', apply_fn=ap_prop_feature, trusted=True, note='C14'),
           Contract(N + 'ParseXmlWrap::parseGetChildren', apply_fn=ap_replaced, trusted=True, note='libxml2 tree'),
           Contract(OPT + '::parseVerifySiblingsImpl', requires=has_node(OPT), ensures=optional_verify_ens, modifies=[]).logs()]
    for cls, cond, mem in ((BUN, 'm_validCond', 'm_members'), (BIT, 'm_validCond', 'm_members'), (MSG, 'm_state.m_validCond', 'm_state.m_fields')):
        out += [Contract(cls + '::parseVerifyReusedValidCond', requires=has_node(cls), ensures=reused_ens(cls, cond, mem), modifies=[]).logs(),
                Contract(cls + '::parseUpdateSingleCondInternal', requires=has_node(cls), ensures=single_cond_ens(cls, mem, cond), modifies=[(1, UP)]).logs()]
    return out


INFO_TYPE, INFO_MODE, INFO_ACC = 0, 4, 8


def contracts():
    out = [Contract(PRO + '::' + f, apply_fn=ap_feat(f), trusted=True, note='C14') for f in (IFACE, EXISTS_F, SIZE_F)]
    M = ['m_left', 'm_op', 'm_right']
    out += [Contract(EXPR + '::parseCheckComparison', requires=cmp_pre, ensures=cmp_ens, modifies=M, loops={EXPR + '::parseCheckComparison': op_loop}).logs(),
            Contract(EXPR + '::parseCheckBool', requires=bool_pre, ensures=bool_ens, modifies=M).logs(),
            Contract(EXPR + '::parse', requires=parse_pre, ensures=parse_ens, modifies=M, callable=False).logs()]
    anon = N
    out += fields_contracts() + deref_contracts() + owner_contracts()
    out += [Contract(FLD + '::parseProcessSiblingRef', apply_fn=lambda *a: put(SIB)(*a), trusted=True, note='proved apart'),
            Contract(SCH + '::parseProcessInterfaceFieldRef', apply_fn=ap_iface, trusted=True, note='the references found in the interfaces, all of them to fields (decided by the corpus)'),
            Contract(anon + 'parseDiscardNonSizeReferences', apply_fn=ap_only(SIZE), trusted=True, note='std::remove_if: keeps those of the mode'),
            Contract(anon + 'parseDiscardNonFieldReferences', apply_fn=ap_only(FIELD), trusted=True, note='std::remove_if: keeps those of the mode'),
            Contract(FLD + '::parseIsComparableToField', apply_fn=ap_cmp_rec, trusted=True, note='proved apart'),
            Contract(FLD + '::parseIsComparableToValue', apply_fn=ap_cmp_value, trusted=True, note='proved apart'),
            Contract(EXPR + '::parseVerifySiblingSingleElementCheck', requires=lambda cx: shape_pre('right', 'r$')(cx) + node_pre(1)(cx), ensures=single_sib_ens, modifies=[]).logs(),
            Contract(EXPR + '::parseVerifyInterfaceBitCheck', requires=lambda cx: shape_pre('right', 'r%')(cx) + node_pre(0)(cx), ensures=iface_bit_ens, modifies=[]).logs(),
            Contract(EXPR + '::parseVerifySingleElementCheck', requires=lambda cx: shape_pre('right', 'rref')(cx) + node_pre(1)(cx), ensures=single_ens, modifies=[]).logs(),
            Contract(EXPR + '::parseVerifyValidSizeValueComparison', requires=node_pre(0), ensures=size_ens, modifies=[]).logs(),
            Contract(EXPR + '::parseVerifySiblingComparison', requires=lambda cx: shape_pre('left', 'right', 'l$')(cx) + node_pre(1)(cx), ensures=sib_cmp_ens, modifies=[]).logs(),
            Contract(EXPR + '::parseVerifyInterfaceComparison', requires=lambda cx: shape_pre('left', 'right', 'l%')(cx) + node_pre(1)(cx), ensures=iface_cmp_ens, modifies=[]).logs(),
            Contract(EXPR + '::parseVerifyComparison', requires=compare_pre, ensures=compare_ens, modifies=[]).logs(),
            Contract(EXPR + '::parseVerifyImpl', requires=verify_pre, ensures=verify_ens, modifies=[], callable=False).logs(),
            Contract(EXPR + '::parseHasInterfaceReferenceImpl', requires=info_pre, ensures=has_if_ens, modifies=[], callable=False),
            Contract('virtual ' + COND + '::parseVerifyImpl', cls=COND, apply_fn=ap_cond_ok, trusted=True, note='proved for each kind'),
            Contract('virtual ' + COND + '::parseHasInterfaceReferenceImpl', cls=COND, apply_fn=ap_cond_if, trusted=True, note='proved for each kind'),
            Contract(LIST + '::parseVerifyImpl', setup=list_setup, requires=node_pre(1), ensures=list_ok_ens, modifies=[], callable=False).logs(),
            Contract(LIST + '::parseHasInterfaceReferenceImpl', setup=list_setup, ensures=list_if_ens, modifies=[], callable=False),
            Contract(EXPR + '::parseLeftInfo', requires=info_pre, ensures=info_ens(0), modifies=[], callable=False),
            Contract(EXPR + '::parseRightInfo', requires=info_pre, ensures=info_ens(2), modifies=[], callable=False)]
    return out


# ------------------------------------------------------------------ the real parser against what a condition may say
class F:
    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.big, self.vals, self.members, self.to, self.since, self.sem, self.uns = False, (), (), None, 0, None, True
        self.__dict__.update(kw)

    def xml(self, **over):
        n, k = self.name, self.kind
        a = {'name': n}
        if self.since:
            a['sinceVersion'] = self.since
        b = ''
        if k == 'int':
            a['type'] = over.get('type') or ('uint64' if self.big else 'uint8' if self.uns else 'int16')
            if self.sem:
                a['semanticType'] = self.sem
            b = ''.join('<special name="%s" val="%d"/>' % x for x in self.vals)
        elif k == 'enum':
            a['type'] = 'uint8'
            b = ''.join('<validValue name="%s" val="%d"/>' % x for x in self.vals)
        elif k == 'set':
            a['length'] = 1
            b = ''.join('<bit name="%s" idx="%d"/>' % x for x in self.vals)
        elif k == 'float':
            a['type'] = 'float'
            b = ''.join('<special name="%s" val="%d"/>' % x for x in self.vals)
        elif k == 'list':
            a['element'] = 'GI'
        elif k in ('bundle', 'variant'):
            b = '<members>%s</members>' % ''.join(m.xml() for m in self.members)
        elif k == 'bitfield':
            return '<bitfield name="%s"><members>%s</members></bitfield>' % (n, ''.join(re.sub(r' length="1"', ' ', m.xml()).replace(' type="uint8"', ' type="uint8" bitLength="4"') if m.kind != 'set' else
                                                                                      m.xml().replace(' length="1"', ' bitLength="4"') for m in self.members))
        elif k == 'optional':
            b = '<field>%s</field>' % self.members[0].xml()
        elif k == 'ref':
            a['field'] = self.to.name
        a.update(over)
        return el(k, a, b)


def deref(f):
    while f.kind == 'ref':
        f = f.to
    return f


GLOBALS = [F('int', 'GI'), F('int', 'GN', uns=False), F('enum', 'GE', vals=(('A', 1), ('B', 2))), F('set', 'GS', vals=(('X', 0), ('Y', 3))), F('string', 'GT'), F('float', 'GF', vals=(('Q', 7),)), F('data', 'GD')]
GLOBALS += [F('bundle', 'GB', members=(F('int', 'gi'), F('set', 'gs', vals=(('Z', 1),)), F('string', 'gt'))), F('optional', 'GO', members=(F('int', 'oi'),))]
G = {f.name: f for f in GLOBALS}
NUM = {'GI': 0, 'GN': 0, 'GE': 1, 'GS': None, 'GT': None, 'GF': None, 'GD': None, 'GB': None, 'GO': None}


def gxml():
    x = ''.join(f.xml() for f in GLOBALS)
    return x.replace('name="GN" type="int16"', 'name="GN" type="int16" defaultValue="-3"')


SIBS = [F('int', 'i8', vals=(('S1', 1),)), F('int', 'i16', uns=False), F('int', 'i64', big=True), F('enum', 'en', vals=(('A', 1), ('C', 3))), F('set', 'st', vals=(('X', 0), ('Y', 3))), F('float', 'fl', vals=(('Q', 7),)),
        F('string', 'tx'), F('data', 'da'), F('list', 'li'), F('bundle', 'bu', members=(F('int', 'bi', vals=(('S2', 2),)), F('string', 'bt'), F('set', 'bs', vals=(('Z', 1),)), F('bundle', 'bb', members=(F('int', 'bbi'),)))),
        F('bitfield', 'bf', members=(F('int', 'fm'), F('set', 'fs', vals=(('W', 2),)))), F('optional', 'op', members=(F('int', 'oi', vals=(('S3', 3),)),)), F('variant', 'va', members=(F('int', 'vi'), F('string', 'vs'))),
        F('ref', 'ri', to=G['GI']), F('ref', 're', to=G['GE']), F('ref', 'rs', to=G['GS']), F('ref', 'rt', to=G['GT']), F('ref', 'rb', to=G['GB']), F('ref', 'ro', to=G['GO']), F('int', 've', since=2), F('int', 'ln', sem='length')]
LATER = [F('int', 'z1'), F('set', 'z2', vals=(('X', 0),))]
IFACES = [[F('int', 'iv'), F('set', 'ist', vals=(('X', 0), ('Y', 3))), F('enum', 'ien', vals=(('A', 1),)), F('string', 'itx'), F('bundle', 'ibu', members=(F('set', 'bs', vals=(('Z', 1),)), F('int', 'bi')))],
          [F('string', 'iv'), F('int', 'ist', vals=(('X', 0),)), F('ref', 'irs', to=G['GS']), F('data', 'ida'), F('optional', 'iop', members=(F('int', 'oi'),))]]
INNER = ('int', 'enum', 'set', 'float')


def inner(f, path):
    """(field, mode, value name) the path leads to, or None"""
    if path == '':
        return f, 'field', None
    t = deref(f)
    if t.members and t.kind != 'optional':
        return resolve(t.members, path)
    if t.kind in INNER:
        return (t, 'value', path) if path in [v[0] for v in t.vals] else None
    if t.kind == 'optional':
        h, _, r = path.partition('.')
        return inner(t.members[0], r) if h == t.members[0].name else None
    return None


def resolve(fields, path):
    if path[:1] in ('#', '?'):
        r = resolve(fields, path[1:])
        if r is None or r[1] != 'field':
            return None
        t = deref(r[0])
        ok = t.kind in ('string', 'data', 'list') if path[0] == '#' else t.kind == 'optional' or r[0].since > 0
        return (r[0], 'size' if path[0] == '#' else 'exists', None) if ok else None
    h, d, r = path.partition('.')
    for f in fields:
        if f.name == h:
            return inner(f, r)
    return None


def num(t):
    try:
        s = t.lower()
        neg, s2 = s.startswith('-'), s.lstrip('+-')
        return (-1 if neg else 1) * int(s2, 16 if s2.startswith('0x') else 10)
    except ValueError:
        return None


def refnum(t):
    """number named by a reference, None when there is none"""
    if t in ('GI',):
        return 0
    if t == 'GN':
        return -3
    return {'GE.A': 1, 'GE.B': 2, 'GE': 1}.get(t)


def literal(f, t):
    """whether the text is a value of the kind of the field; None: not decided here"""
    if f.sem or (f.kind == 'ref' and f.to.sem):
        v = num(t)
        return v is not None and -2**63 <= v < 2**63
    f = deref(f)
    k = f.kind
    name = re.fullmatch(r'[A-Za-z_]\w*', t)
    if k in ('int', 'enum', 'float') and name and t in [v[0] for v in f.vals]:
        return True
    if k in ('int', 'enum', 'set') and re.fullmatch(r'@?[A-Za-z_]\w*(\.[A-Za-z_]\w*)*', t):
        v = refnum(t)
        if v is None:
            return False if t != 'GS.X' else None
        return v >= 0 or not (k == 'set' or f.uns or f.big)
    if k in ('int', 'enum'):
        v = num(t)
        return v is not None and (0 <= v < 2**64 if f.big else -2**63 <= v < 2**63)
    if k == 'set':
        v = num(t)
        return v is not None and 0 <= v < 2**63
    if k == 'float':
        if t.lower() in ('nan', 'inf', '-inf'):
            return True
        if name or '.' in t and not re.fullmatch(r'-?\d*\.\d*', t):
            return None
        return bool(re.fullmatch(r'-?\d+(\.\d+)?', t))
    if k == 'string':
        if t.startswith('^'):
            return t[1:] == 'GT'
        return True
    return False


def comparable(a, b):
    a, b = deref(a).kind, deref(b).kind
    return a == b or {a, b} == {'int', 'enum'}


def ifrefs(path):
    return [r for r in (resolve(fs, path) for fs in IFACES) if r is not None]


def proper(c, fields, ifs=True):
    """whether the comparison (left, op, right) is proper where the given fields come before; None: not decided"""
    l, op, r = c
    if not l:
        if r[:1] == '$':
            x = resolve(fields, r[1:])
            return x is not None and x[1] in ('value', 'exists')
        if r[:1] == '%':
            return any(x[1] == 'value' and x[0].kind == 'set' for x in ifrefs(r[1:]))
        return False
    if l[0] == '$':
        L = [x for x in (resolve(fields, l[1:]),) if x is not None]
    elif l[0] == '%':
        L = ifrefs(l[1:])
    else:
        return False
    if any(x[1] == 'size' for x in L):
        v = num(r)
        return v is not None and -2**63 <= v < 2**63
    L = [x for x in L if x[1] == 'field']
    if not L:
        return False
    if r[0] in '$%':
        R = [x for x in ([resolve(fields, r[1:])] if r[0] == '$' else ifrefs(r[1:])) if x is not None and x[1] == 'field']
        return any(comparable(a[0], b[0]) for a in L for b in R)
    v = [literal(x[0], r) for x in L]
    return True if True in v else None if None in v else False


def flat(c):
    return [c] if isinstance(c, tuple) and isinstance(c[0], str) and c[0] not in ('and', 'or') else [y for x in c[1] for y in flat(x)]


OPS = ['=', '!=', '<', '>', '<=', '>=']
LITS = ['0', '5', '-1', '300', '0x1f', '1.5', 'abc', 'A', 'C', 'S1', 'Q', 'nan', 'inf', 'GI', 'GN', 'GE.A', 'GE.Zz', 'nope.x', '18446744073709551615', '18446744073709551616', '9223372036854775807', '9223372036854775808', '-9223372036854775808',
        '-9223372036854775809', '^GT', '^GI', '^nope', '12abc', '0x', '5 6', 'X']


def operand(rng, pre):
    f = rng.choice(SIBS + LATER[:1] if pre == '$' else IFACES[rng.randrange(2)])
    p = f.name
    t = deref(f)
    while rng.random() < .75 and (t.members or t.vals):
        if t.members:
            m = rng.choice(t.members)
            p += '.' + m.name
            t = deref(m)
        else:
            p += '.' + rng.choice(t.vals)[0]
            break
    x = rng.random()
    if x < .06:
        p = p + '.nope'
    elif x < .09:
        p = 'nope'
    elif x < .11:
        p = p[:1].swapcase() + p[1:]
    x = rng.random()
    return pre + ('#' if x < .12 else '?' if x < .2 else '') + p


def operand_of(rng, pre, mode):
    """mostly one of the mode"""
    for _ in range(60):
        o = operand(rng, pre)
        rs = [resolve(SIBS, o[1:])] if pre == '$' else ifrefs(o[1:])
        if any(x is not None and x[1] == mode for x in rs):
            return o
    return o


def comparison(rng, pres='$$$%', want=None):
    for _ in range(40):
        pre = rng.choice(pres)
        if rng.random() < .3:
            c = ('', rng.choice(['', '!']), operand(rng, pre) if rng.random() < .3 else operand_of(rng, pre, rng.choice(['value', 'value', 'exists'])))
        else:
            l = operand(rng, pre) if rng.random() < .2 else operand_of(rng, pre, rng.choice(['field'] * 4 + ['size']))
            x = rng.random()
            r = rng.choice(LITS) if x < .55 else operand(rng, rng.choice(pres)) if x < .65 else operand_of(rng, rng.choice(pres), 'field')
            c = (l, rng.choice(OPS), r)
        if want is None or proper(c, SIBS) is want:
            return c
    return c


def tree(rng, pres, depth, want):
    if depth == 0 or rng.random() < .4:
        return comparison(rng, pres, want)
    return (rng.choice(['and', 'or']), [tree(rng, pres, depth - 1, want) for _ in range(rng.choice([2, 2, 3]))])


def text(rng, c):
    l, op, r = c
    sp = lambda: ' ' * rng.choice([0, 1, 1, 2])
    return op + (sp() if op else '') + r if not l else l + sp() + op + sp() + r


def nested(rng, c, name):
    if isinstance(c[1], list):
        return '<%s>%s</%s>' % (c[0], ''.join(nested(rng, x, name) for x in c[1]), c[0])
    t = text(rng, c)
    return '<%s value="%s"/>' % (name, esc(t)) if rng.random() < .5 or t.strip() != t else '<%s>%s</%s>' % (name, esc(t), name)


def interfaces():
    return ''.join('<interface name="I%d"><fields>%s</fields></interface>' % (i, ''.join(f.xml() for f in fs)) for i, fs in enumerate(IFACES))


PLACES = ('msg', 'bundle', 'mvalid', 'mread', 'mcons', 'bvalid', 'fvalid')


def build(place, attr, child, rng):
    """schema with the condition written as the attribute, or as the child, and inherited by a second definition"""
    sib, later = ''.join(f.xml() for f in SIBS), ''.join(f.xml() for f in LATER)
    head = '<fields>%s</fields>%s' % (gxml(), interfaces())
    at = lambda p: ' %s="%s"' % (p, esc(attr)) if attr is not None else ''
    kid = lambda p: '<%s>%s</%s>' % (p, child, p) if child is not None else ''
    if place in ('msg', 'bundle'):
        o = '<optional name="tgt"%s><field><int name="f" type="uint8"/></field>%s</optional>' % (at('cond'), child or '')
        body = sib + o + later
        if place == 'msg':
            return schema('', head + '<message name="M" id="1"><fields>%s</fields></message><message name="N" id="2" reuse="M"/>' % body, version=5)
        return schema('', head + '<fields><bundle name="TB"><members>%s</members></bundle><bundle name="TC" reuse="TB"/></fields>' % body, version=5)
    p = {'mvalid': 'validCond', 'mread': 'readCond', 'mcons': 'construct', 'bvalid': 'validCond', 'fvalid': 'validCond'}[place]
    if place[0] == 'm':
        return schema('', head + '<message name="M" id="1"%s><fields>%s</fields>%s</message><message name="N" id="2" reuse="M"/>' % (at(p), sib, kid(p)), version=5)
    if place == 'bvalid':
        return schema('', head + '<fields><bundle name="TB"%s><members>%s</members>%s</bundle><bundle name="TC" reuse="TB"/></fields>' % (at(p), sib, kid(p)), version=5)
    x = SIBS[10].xml().replace('<bitfield name="bf"', '<bitfield name="TB"%s' % at(p)).replace('</bitfield>', kid(p) + '</bitfield>')
    return schema('', head + '<fields>%s<bitfield name="TC" reuse="TB"/></fields>' % x, version=5)


OTHERS = [F('int', '?', vals=(('S1', 1),)), F('int', '?', uns=False), F('string', '?'), F('set', '?', vals=(('X', 0),)), F('data', '?'), F('ref', '?', to=G['GE'])]


def replaced(place, k, new, attr):
    """schema of an element (holding the condition at the target after the fields, or as its validCond) reused by another that replaces the k-th field"""
    tgt = '<optional name="tgt" cond="%s"><field><int name="f" type="uint8"/></field></optional>' % esc(attr)
    vc = '<validCond value="%s"/>' % esc(attr)
    body = ''.join(f.xml() for f in SIBS) + (tgt if 'v' not in place else '')
    head = '<fields>%s</fields>%s' % (gxml(), interfaces())
    extra = vc if 'v' in place else ''
    if place[-1] == 'm':
        return schema('', head + '<message name="M0" id="1"><fields>%s</fields>%s</message><message name="M" id="2" reuse="M0"><replace>%s</replace></message>' % (body, extra, new), version=5)
    return schema('', head + '<fields><bundle name="B0"><members>%s</members>%s</bundle><bundle name="TB" reuse="B0"><replace>%s</replace></bundle></fields>' % (body, extra, new), version=5)


def as_new(rng, k, used=False):
    o = F(**rng.choice(OTHERS).__dict__)
    o.name = SIBS[k].name
    return o


def hasif(c):
    return c[0][:1] == '%' or c[2][:1] == '%'


def verdict(place, c):
    fields = SIBS if place in ('msg', 'bundle', 'mvalid', 'bvalid') else SIBS[10].members if place == 'fvalid' else ()
    v = [proper(x, fields) for x in flat(c)]
    if place in ('bvalid', 'fvalid') and any(hasif(x) for x in flat(c)):
        return False
    if place == 'mcons':
        if isinstance(c[1], list) and (c[0] == 'or' or any(isinstance(x[1], list) and bad_cons(x) for x in c[1])) or any(x[0] and x[1] != '=' for x in flat(c)):
            return False
    return False if False in v else None if None in v else True


def bad_cons(c):
    return isinstance(c[1], list) and (c[0] == 'or' or any(bad_cons(x) for x in c[1]))


# texts that are no condition at all
MALFORMED = ['', '$', '%', '!', '! ', '=', '= 5', '$i8 =', '$i8 = ', '5 = $i8', 'i8', 'i8 = 5', '5', '!5', '!i8', '$i8 ! 5', '$i8 == 5', '$i8 <> 5', '$i8 =! 5', '&', '$i8 ~ 5', '!!$st.X', '$.', '$.i8', '$i8.', '$bu..bi = 1', '$# = 1', '$? ', '$#', '%#',
             '$##tx = 1', '$#?tx = 1', '!$#tx', '$?i8', '!$?tx', '$?nope', '%?iop', '!%nope', '%iv.nope', '$st.X = 1', '$#tx', '$?op = 1', '$#tx = abc', '$#tx = 1x', '$#tx = $i8', '$#i8 = 1', '%#iv.x = 1', '$i8 = $', '$i8 = %', '$i8 = $#tx', '$i8 = $st.X', '$i8 = $?op',
             '$ i8 = 5', '$bu.bi.S9', '$va.zz = 1', '%ibu.bs.Zz']
PROPER = ['$i8=5', '$i8 = 5', ' $i8   =  5 ', '!$st.X', '! $st.X', '$st.X', '$bu.bs.Z', '!$?op', '$?op', '$?ve', '$#tx > 3', '$#bu.bt >= 0x2', '$bu.bb.bbi != $i16', '$en = A', '$en = $i8', '$rt = ^GT', '$tx = 5 6', '%iv = 5', '%iv = abc', '!%ist.X', '%irs.Y', '%#itx = 4', '$i8 = %iv',
          '%iv = $i8', '%iv = %ien', '$bf.fm < 3', '$bf.fs.W', '$op.oi = 3', '$ro.oi = 3', '$rb.gi = 3', '$rb.gs.Z', '$va.vi = 1', '$tx = a\\=b', '$tx != \\<x', '$tx = a']


def parse_text(t):
    """(left, op, right) of a well formed text"""
    t = t.strip()
    m = re.match(r'((?:\\.|[^=<>!\\])*?) *(!=|>=|<=|=|>|<) *(.*)$', t)
    if m and m.group(1):
        return m.groups()
    m = re.match(r'(!?) *(.*)$', t)
    return ('', m.group(1), m.group(2))


def cases(rng, tier):
    for place in PLACES:
        for t in MALFORMED:
            yield ('S', build(place, t, None, rng), ('bad', place, t))
        for t in PROPER:
            yield ('S', build(place, t, None, rng), ('cond', place, parse_text(t)))
    yield from repl_cases(rng, 480 if tier == 'quick' else 4000)
    for i in range(2800 if tier == 'quick' else 20000):
        place = PLACES[i % len(PLACES)]
        pres = '%' if place in ('mread', 'mcons') else '$' if place in ('fvalid',) else '$$$$$%' if place == 'bvalid' else '$$$%'
        want = [True, True, None][rng.randrange(3)]
        if place == 'fvalid':
            want = None
        c = tree(rng, pres, rng.choice([0, 0, 1, 2]), want)
        if place == 'mcons' and rng.random() < .7:
            fix = lambda c: ('and', [fix(x) for x in c[1]]) if isinstance(c[1], list) else (c[0], '=' if c[0] else c[1], c[2])
            c = fix(c)
        if isinstance(c[1], list):
            yield ('S', build(place, None, nested(rng, c, {'msg': 'cond', 'bundle': 'cond', 'mread': 'readCond', 'mcons': 'construct'}.get(place, 'validCond')), rng), ('cond', place, c))
        else:
            yield ('S', build(place, text(rng, c), None, rng), ('cond', place, c))


def repl_cases(rng, n):
    for i in range(n):
        place = ('rm', 'rb', 'rvm', 'rvb', 'tm', 'tb')[i % 6]
        if place[0] == 't':
            # the replacing field is the one with the condition: only the fields before it count
            k = rng.randrange(3, len(SIBS))
            c = comparison(rng, '$', True)
            yield ('S', replaced(place, k, '<optional name="%s" cond="%s"><field><int name="f" type="uint8"/></field></optional>' % (SIBS[k].name, esc(text(rng, c))), '$i8 = 1') if k else None, ('repl', place, c, proper(c, SIBS[:k]), k))
            continue
        c = comparison(rng, '$', True)
        if place[1] == 'v' and hasif(c):
            continue
        used = re.findall(r'[$][#?]?(\w+)', c[0] + ' ' + (c[2] if c[2][:1] == '$' else ''))
        names = [f.name for f in SIBS]
        used = [u for u in used if u in names]
        k = names.index(rng.choice(used)) if used and rng.random() < .8 else rng.randrange(len(SIBS))
        o = as_new(rng, k)
        yield ('S', replaced(place, k, o.xml(), text(rng, c)), ('repl', place, c, proper(c, SIBS[:k] + [o] + SIBS[k + 1:]), k))


def shown(o, place):
    """the condition as reported for the definition, and for the one inheriting it"""
    ns = o['schemas'][0]['ns'][0]
    pick = lambda l, n: [f for f in l if f['name'] == n]
    if place[0] == 'm':
        ms = pick(ns['msgs'], 'M') + pick(ns['msgs'], 'N')
        if place == 'msg':
            return [pick(m['fields'], 'tgt')[0]['cond'] for m in ms]
        return [m[{'mvalid': 'validcond', 'mread': 'readcond', 'mcons': 'construct'}[place]] for m in ms]
    bs = pick(ns['fields'], 'TB') + pick(ns['fields'], 'TC')
    return [b['validcond'] if place != 'bundle' else pick(b['members'], 'tgt')[0]['cond'] for b in bs]


MODES = {'': 0, '#': 1, '?': 2}


def as_written(c):
    if isinstance(c[1], list):
        return dict(ltype={'and': 0, 'or': 1}[c[0]], conds=[as_written(x) for x in c[1]])
    d = dict(left=c[0], op=c[1], right=c[2])
    for k, t in (('l', c[0]), ('r', c[2])):
        if not t:
            x = (0, 0, '')
        elif t[0] in '$%':
            x = ({'$': 2, '%': 3}[t[0]], MODES.get(t[1:2], 0), t[2:] if t[1:2] in ('#', '?') and t[1:2] else t[1:])
        else:
            x = (1, 0, t)
        d[k + 't'], d[k + 'm'], d[k + 'a'] = x
    return d


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and all(same(v, b.get(k)) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return str(a) == str(b)


def judge(c, o):
    if c[2][0] == 'repl':
        _, place, cond, v, k = c[2]
        ok = bool(o.get('valid')) and bool(o.get('parse'))
        where = 'the condition %r with the field %s replaced (%s)' % (cond, SIBS[k].name, place)
        if v is not None and v != ok:
            return ('accepted', where + ' is accepted') if ok else ('rejected', where + ' is rejected: %s' % (o.get('msgs') or ['?'])[0])
        return ('silent', where + ' is rejected without an error') if not ok and not o.get('errs') else None
    what, place, cond = c[2]
    if what == 'bad':
        if o.get('valid') and o.get('parse'):
            return 'malformed', 'the text "%s" is accepted as a condition (%s)' % (cond, place)
        if not o.get('errs'):
            return 'silent', 'the text "%s" is rejected as a condition without an error (%s)' % (cond, place)
        return None
    v = verdict(place, cond)
    ok = bool(o.get('valid')) and bool(o.get('parse'))
    if v is False and ok:
        return 'accepted', 'the condition %r of %s is accepted' % (cond, place)
    if v is True and not ok:
        return 'rejected', 'the condition %r of %s is rejected: %s' % (cond, place, (o.get('msgs') or ['?'])[0])
    if not ok and not o.get('errs'):
        return 'silent', 'the condition %r of %s is rejected without an error' % (cond, place)
    if ok and not (len(shown(o, place)) == 2 and all(same(as_written(cond), x) for x in shown(o, place))):
        return 'changed', 'the condition %r of %s is reported as %r' % (cond, place, shown(o, place))
    return None


BOUND = 'single and combined conditions over every kind of field, reference to it and member of it, every operator, access and kind of literal, as conditions of optionals, validity, read and construction conditions of messages, of bundles and of bitfields, and after <replace>'
ASSUME = ['the fields of the interfaces a reference leads to (ParseSchemaImpl::parseProcessInterfaceFieldRef) and std::remove_if over them keep what they are documented to keep (native corpus only)',
          'whether a text is a value of the kind of the field is decided by the functions proved for C03, C04, C05, C16 (parseStrToValue of each kind)',
          'the combined conditions are read as written (ParseOptCondListImpl::parse and copies of it: native corpus only)',
          'a field reference accepted by the parser has a target, an accepted optional has a field (C13, C19); the condition of a field was read before it is verified']
