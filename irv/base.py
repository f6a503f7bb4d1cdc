"""Contracts of the helpers shared by many functions.  Each is verified by the check that owns it (see props/*.py); `trusted` ones wrap a
library facility.  Everywhere else they are what a caller may rely on."""
import z3
from .contract import Contract, V, set_str, get_str
from .engine import SV, Ptr, StrS, ObjS, And, Or, Not, Implies, bl, bv, slen

BASE_SRCS = ['parse/parse_common.cpp', 'parse/ParseXmlWrap.cpp', 'parse/ParseFieldImpl.cpp', 'parse/ParseProtocolImpl.cpp', 'parse/ParseSchemaImpl.cpp']
N = 'commsdsl::parse::'
C = N + 'common::'

BV64 = z3.BitVecSort(64)
Bool = z3.BoolSort()

# spec functions (uninterpreted here; their meaning is fixed by the contracts of C02/C10 and by the replay oracle)
num_i_ok = z3.Function('spec_int_ok', StrS, z3.BitVecSort(32), Bool)
num_i = z3.Function('spec_int', StrS, z3.BitVecSort(32), BV64)
num_u_ok = z3.Function('spec_uint_ok', StrS, z3.BitVecSort(32), Bool)
num_u = z3.Function('spec_uint', StrS, z3.BitVecSort(32), BV64)
num_n_ok = z3.Function('spec_unsigned_ok', StrS, z3.BitVecSort(32), Bool)
num_n = z3.Function('spec_unsigned', StrS, z3.BitVecSort(32), z3.BitVecSort(32))
bool_ok = z3.Function('spec_bool_ok', StrS, Bool)
bool_v = z3.Function('spec_bool', StrS, Bool)
name_ok = z3.Function('spec_name_ok', StrS, Bool)
refname_ok = z3.Function('spec_refname_ok', StrS, Bool)
extref_ok = z3.Function('spec_extref_ok', StrS, Bool)


def zstr(x):
    return x.z()


def conv(okf, vf, w, withbase=True):
    """(str, bool* ok, base) -> value"""
    def ens(cx):
        s = zstr(cx.str_arg(0))
        a = (s, bv(cx.arg(2), 32)) if withbase else (s,)
        okp = cx.arg(1)
        out = []
        if okp.obj is not None:
            okv = bl(cx.eng.load(cx.st1, okp, cx.boolty, cx.mod)) if False else None
        r = cx.res if w == 1 else bv(cx.res, w)
        out.append(('the value is the denoted number', Implies(okf(*a), r == vf(*a))))
        return out
    return ens


def ap_conv(okf, vf, w, withbase=True):
    """apply: the value and the flag are functions of the text"""
    from .llparse import INT

    def ap(eng, st, args, ins, mod, name):
        s = zstr(get_str(eng, st, args[0]))
        a = (s, bv(args[2], 32)) if withbase else (s,)
        okp = args[1]
        if okp.obj is not None:
            eng.store(st, okp, okf(*a), INT(1), mod)
        v = eng.fresh('num', w)
        st.assume(Implies(okf(*a), v == vf(*a)))
        return [(st, 'ret', v)]
    return ap


def ap_pred(p):
    def ap(eng, st, args, ins, mod, name):
        return [(st, 'ret', p(zstr(get_str(eng, st, args[0]))))]
    return ap


def ap_logprefix(eng, st, args, ins, mod, name):
    set_str(eng, st, args[0], SV(z3.FreshConst(StrS, 'prefix')))
    return [(st, 'ret', None)]


def ap_curr_schema(eng, st, args, ins, mod, name):
    from .engine import Ptr
    f = z3.Function('obs_curr_schema', ObjS, ObjS)
    oid = eng.lazy_obj(st, f(eng.ident_of(st, args[0])), N + 'ParseSchemaImpl', 'schema')
    return [(st, 'ret', Ptr(oid))]


def single_prop_ens(cx):
    st = cx.st1
    cnt = prop_count(cx.eng, cx.st0, cx.arg(1), cx.str_arg(2), cx.mod, cx.st1)
    must = bl(cx.arg(4))
    ok = And(z3.ULE(cnt, 1), Implies(must, cnt == 1))
    return [('accepted exactly when given at most once, and once when mandatory', cx.res == ok),
            ('a rejection is reported', Implies(Not(cx.res), bl(cx.err()) if not isinstance(cx.err(), bool) else cx.err())),
            ('acceptance reports nothing new', Implies(cx.res, same_err(cx)))]


def may_report(eng, st, ok):
    """a rejection is reported; acceptance may report or not"""
    e1 = z3.FreshConst(Bool, 'err')
    g0 = st.g.get('gh:err', False)
    st.assume(z3.Implies(z3.Or(bl(g0), z3.Not(bl(ok))), e1))
    st.g['gh:err'] = e1


def node_ok_of(cx, cls):
    """node_ok for a member of a derived class"""
    return node_ok(cx, cx.view(cx.args['this'], cls))


def node_ok(cx, view=None):
    """the XML node of *this exists and belongs to a document (constructor argument; libxml2)"""
    from .llparse import PTR
    p = (view or cx.old)('m_node')
    q = type(p)(p.obj, p.off)
    d = cx.eng.load(cx.st0, q.add(64), PTR, cx.mod)
    return [('the node exists', Not(bl(p.nul))), ('the node belongs to a document', Not(bl(d.nul)))]


def same_err(cx):
    a, b = cx.err(), cx.err0()
    if isinstance(a, bool) and isinstance(b, bool):
        return z3.BoolVal(a == b)
    return bl(a) == bl(b)


def prop_count(eng, st, mp, key, mod, st1=None):
    """number of values of a property in a multimap<string,string> at mp"""
    from . import stl
    v = stl.get_vec(eng, st, mp, stl.node_type('std::string', 'std::string'), mod, 'map', 'std::string', True)
    o = st.obj(v.store)
    kt = zstr(key)
    if o.ident is None:
        raise __import__('irv.engine', fromlist=['Unsupported']).Unsupported('prop_count of a concrete map')
    cnt = z3.Function('mapcnt_%s' % kt.sort(), ObjS, kt.sort(), BV64)(o.ident, kt)
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), BV64)(o.ident, kt)
    n = bv(v.n, 64)
    for x in (st, st1):
        if x is not None:
            x.assume(And(z3.ULE(cnt, n), z3.ULE(idx, n), (cnt == 0) == (idx == n)))
    return cnt


def ap_string_prop(eng, st, args, ins, mod, name):
    """the (first) text of a property, the default text when it is not given; proved by C17"""
    from . import stl
    from .engine import Obj, Unsupported
    T = ('std::string', 'std::string')
    v = stl.get_vec(eng, st, args[0], stl.node_type(*T), mod, 'map', 'std::string', True)
    o = st.obj(v.store)
    if o.ident is None or o.written:
        raise Unsupported('parseGetStringProp of a local map')
    key = get_str(eng, st, args[1])
    cnt = prop_count(eng, st, args[0], key, mod)
    kt = zstr(key)
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), BV64)(o.ident, kt)
    s = get_str(eng, st, stl.idx_ptr(eng, st, v.store, idx).add(stl.pair_off2(eng, mod, list(T))))
    d = get_str(eng, st, args[2])
    i = st.new(Obj('local', 'prop', size=32))
    stl.set_str(eng, st, Ptr(i), SV(z3.If(cnt != 0, s.z(), d.z())))
    return [(st, 'ret', Ptr(i))]


def string_prop():
    return Contract(C + 'parseGetStringProp', apply_fn=ap_string_prop, note='C17')


enumref_ok = z3.Function('spec_enumref_ok', ObjS, StrS, Bool)
enumref_v = z3.Function('spec_enumref', ObjS, StrS, BV64)


def ap_enumref(eng, st, args, ins, mod, name):
    """value of an enumerator named by a reference (function of the protocol and the text); the output is written only on success"""
    from .llparse import INT
    i, s = eng.ident_of(st, args[0]), zstr(get_str(eng, st, args[1]))
    old = bv(eng.load(st, args[2], INT(64), mod), 64)
    eng.store(st, args[2], z3.If(enumref_ok(i, s), enumref_v(i, s), old), INT(64), mod)
    return [(st, 'ret', enumref_ok(i, s))]


def contracts():
    return [
        Contract(N + 'ParseProtocolImpl::parseStrToEnumValue', apply_fn=ap_enumref, trusted=True, note='C18'),
        Contract(C + 'parseStrToUnsigned', apply_fn=ap_conv(num_n_ok, num_n, 32), note='C02'),
        Contract(C + 'parseStrToIntMax', apply_fn=ap_conv(num_i_ok, num_i, 64), note='C02'),
        Contract(C + 'parseStrToUintMax', apply_fn=ap_conv(num_u_ok, num_u, 64), note='C02'),
        Contract(C + 'parseStrToBool', apply_fn=ap_conv(bool_ok, bool_v, 1, False), note='C02'),
        Contract(C + 'parseIsValidName', apply_fn=ap_pred(name_ok), note='C10'),
        Contract(C + 'parseIsValidRefName', sig='std::string const&' if False else 'basic_string', apply_fn=ap_pred(refname_ok), note='C10'),
        Contract(C + 'parseIsValidExternalRefName', apply_fn=ap_pred(extref_ok), note='C10'),
        Contract(C + 'parseToLowerCopy', pure='lower'),
        Contract('virtual ' + N + 'ParseObject::parseObjKindImpl', cls=N + 'ParseObject', pure='obj_kind', trusted=True, note='constant of the class'),
        Contract('virtual ' + N + 'ParseFieldImpl::parseObjKindImpl', cls=N + 'ParseFieldImpl', pure='obj_kind', trusted=True, note='constant of the class'),
        Contract('virtual ' + N + 'ParseFieldImpl::parseKindImpl', cls=N + 'ParseFieldImpl', pure='field_kind', trusted=True, note='constant of the class'),
        Contract(N + 'ParseProtocolImpl::parseCurrSchema', apply_fn=ap_curr_schema, trusted=True, note='a schema is being parsed'),
        Contract(N + 'ParseXmlWrap::parseLogPrefix', apply_fn=ap_logprefix, trusted=True, note='text of a log message'),
        Contract(N + 'ParseXmlWrap::parseValidateSinglePropInstance', ensures=single_prop_ens, modifies=[], note='C17').logs(),
    ]
