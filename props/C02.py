"""C02: numeric attribute text is converted exactly or rejected."""
import z3
from irv.contract import Contract, V
from irv.engine import And, Or, Not, Implies, bl, bv, SV
from irv.llparse import INT
from irv import base as B
from irv.xml import schema, parse_field, el
from props import intspec as S, textspec as T

N = 'commsdsl::parse::'
C = N + 'common::'
SRCS = ['parse/ParseIntFieldImpl.cpp', 'parse/ParseMessageImpl.cpp', 'parse/ParseDataFieldImpl.cpp', 'parse/ParseStringFieldImpl.cpp', 'parse/ParseListFieldImpl.cpp', 'parse/ParseFloatFieldImpl.cpp',
        'parse/ParseEnumFieldImpl.cpp', 'parse/ParseSetFieldImpl.cpp']
BOUND = 'about 130 numeric texts (boundary magnitudes, signs, bases, white space, malformed tails) in each of the numeric attributes'


def flag(cx, i=1):
    """value of an optional bool out parameter, None when the pointer is null on this path"""
    p = cx.arg(i)
    if p.obj is None:
        return None
    from irv.engine import Ptr
    return bl(cx.eng.load(cx.st1, Ptr(p.obj, p.off), INT(1), cx.mod))


def conv(unsigned, w):
    def ens(cx):
        sv = cx.str_arg(0)
        base = bv(cx.arg(2), 32)
        if w == 32:          # by the contract of parseStrToUintMax
            ok, v = B.num_u_ok(sv.z(), base), B.num_u(sv.z(), base)
        else:
            ok = T.number_ok(cx, sv, base, unsigned)
            v = (T.num_ull if unsigned else T.num_ll)(sv.z(), base)
        if w == 32:
            ok = z3.And(ok, z3.ULE(v, z3.BitVecVal(2**32 - 1, 64)))
            v = z3.Extract(31, 0, v)
        out = [('the result is the denoted number, 0 when there is none', bv(cx.res, w) == z3.If(ok, v, z3.BitVecVal(0, w)))]
        p = cx.arg(1)
        if p.obj is not None:
            f = flag(cx)
            out.append(('the text is accepted exactly when it is one whole number in range', Or(bl(p.nul), f == ok)))
        return out
    return ens


def sdec(cx, unsigned):
    pass


def bool_ens(cx):
    from irv.engine import strlit
    low = S.lower(cx.str_arg(0).z())
    t = Or(low == strlit('true'), low == strlit('1'))
    f = Or(low == strlit('false'), low == strlit('0'))
    out = [('the result is the denoted truth value', cx.res == t)]
    p = cx.arg(1)
    if p.obj is not None:
        out.append(('accepted exactly for true, false, 1 and 0', Or(bl(p.nul), flag(cx) == Or(t, f))))
    return out


B10 = S.B10


def upd(fn, key, member, unsigned, w, must=False, zero_ok=True, empty_default=False, gate=None, extra=None, pre=None, cls_member=None, inherit=False):
    """a member function storing the number written in the property `key` in `member`"""
    okf = {32: B.num_n_ok, 64: B.num_u_ok if unsigned else B.num_i_ok}[w]
    vf = {32: B.num_n, 64: B.num_u if unsigned else B.num_i}[w]
    mem = cls_member or ('m_state.' + member)

    def ens(cx):
        c = S.prop(cx, key)
        s = S.prop_str(cx, key)
        g = And(c != 0, S.B.slen(s) != 0) if empty_default else c != 0
        if gate:
            g = And(g, S.supported(cx, gate))
        ok = okf(s, B10)
        v = vf(s, B10)
        n1, n0 = cx.new(mem), cx.old(mem)
        if n1.size() > w:
            v = z3.ZeroExt(n1.size() - w, v)
        if not zero_ok:
            ok = And(ok, v != 0)
        out = [('accepted only for at most one well formed number in range', Implies(cx.res, And(z3.ULE(c, 1), Implies(g, ok)))),
               ('the stored number is exactly the written one', Implies(And(cx.res, g), n1 == v)),
               ('nothing is stored when none is written', Implies(And(cx.res, Not(g)), n1 == n0) if not inherit else True),
               S.rejected_reports(cx)]
        if must:
            out.append(('the property is mandatory', Implies(cx.res, c == 1)))
        if extra is None:
            out.append(('a well formed number in range is accepted', Implies(And(c == 1, ok), cx.res)))
        return out
    return Contract(fn, requires=pre, ensures=ens, modifies=[mem], callable=False).logs()


def schema_unsigned(cx):
    import irv.stl as stl
    eng, st = cx.eng, cx.st1
    key = cx.str_arg(1)
    c = B.prop_count(eng, cx.st0, cx.arg(0), key, cx.mod, st)
    v = stl.get_vec(eng, st, cx.arg(0), stl.node_type('std::string', 'std::string'), cx.mod, 'map', 'std::string', True)
    kt = key.z()
    idx = z3.Function('mapidx_%s' % kt.sort(), S.ObjS, kt.sort(), z3.BitVecSort(64))(st.obj(v.store).ident, kt)
    s = stl.get_str(eng, st, stl.idx_ptr(eng, st, v.store, idx).add(stl.pair_off2(eng, cx.mod, ['std::string', 'std::string']))).z()
    n1 = cx.deref(2, 'unsigned int')
    return [('accepted exactly when not given or a number in range', cx.res == Or(c == 0, B.num_n_ok(s, B10))),
            ('the stored number is exactly the written one, 0 by default', Implies(cx.res, n1 == z3.If(c == 0, z3.BitVecVal(0, 32), B.num_n(s, B10)))),
            S.rejected_reports(cx)]


def id_ens(cx):
    c = S.prop(cx, 'id')
    s = S.prop_str(cx, 'id')
    i = cx.eng.ident_of(cx.st0, cx.old('m_protocol'))
    ref = B.enumref_ok(i, s)
    ok = And(c == 1, Or(ref, B.num_u_ok(s, B10)))
    return [('accepted exactly for one reference to an enumerator or number in range', cx.res == ok),
            ('the id is the referenced value or exactly the written number', Implies(cx.res, cx.new('m_state.m_id') == z3.If(ref, B.enumref_v(i, s), B.num_u(s, B10)))),
            S.rejected_reports(cx)]


def contracts():
    outp = [(1, 'bool')]
    return [
        Contract(C + 'parseStrToIntMax', ensures=conv(False, 64), modifies=outp, callable=False),
        Contract(C + 'parseStrToUintMax', ensures=conv(True, 64), modifies=outp, callable=False),
        Contract(C + 'parseStrToUnsigned', ensures=conv(True, 32), modifies=outp, callable=False),
        Contract(C + 'parseStrToBool', ensures=bool_ens, modifies=outp, callable=False),
        Contract(N + 'ParseSchemaImpl::parseUpdateUnsignedProperty', requires=B.node_ok, ensures=schema_unsigned, modifies=[(2, 'unsigned int')], callable=False).logs(),
        Contract(N + 'ParseMessageImpl::parseUpdateId', ensures=id_ens, modifies=['m_state.m_id'], callable=False).logs(),
        upd(N + 'ParseMessageImpl::parseUpdateOrder', 'order', 'm_order', True, 32),
        upd(N + 'ParseIntFieldImpl::parseUpdateDisplayDecimals', 'displayDecimals', 'm_displayDecimals', True, 32),
        upd(N + 'ParseFloatFieldImpl::parseUpdateDisplayDecimals', 'displayDecimals', 'm_displayDecimals', True, 32),
        upd(N + 'ParseIntFieldImpl::parseUpdateDisplayOffset', 'displayOffset', 'm_displayOffset', False, 64),
        upd(N + 'ParseIntFieldImpl::parseUpdateSerOffset', 'serOffset', 'm_serOffset', False, 64, empty_default=True),
        upd(N + 'ParseDataFieldImpl::parseUpdateLength', 'length', 'm_length', True, 32, zero_ok=False, extra=1),
        upd(N + 'ParseStringFieldImpl::parseUpdateLength', 'length', 'm_length', True, 32, zero_ok=False, extra=1),
        upd(N + 'ParseListFieldImpl::parseUpdateCount', 'count', 'm_count', True, 32, zero_ok=False, extra=1),
        upd(N + 'ParseFieldImpl::parseUpdateValidateMinLength', 'validateMinLength', 'm_validateMinLength', True, 32, gate=7),
        upd(N + 'ParseMessageImpl::parseUpdateValidateMinLength', 'validateMinLength', 'm_validateMinLength', True, 32, gate=4),
        upd(N + 'ParseIntFieldImpl::parseUpdateLength', 'length', 'm_length', True, 64, zero_ok=False, empty_default=True, extra=1, pre=S.len_pre, inherit=True),
    ]


# ---------------------------------------------------------------- replay corpus
def F(o, i=-1):
    return parse_field(o, i)


def MSG(o):
    return o['schemas'][0]['ns'][0]['msgs'][-1]


U32, U64, I64 = T.U32, T.U64, T.I64


def fld(tag, extra, body=''):
    """schema with one field having the attribute under test"""
    return lambda k: (lambda t: schema(el(tag, dict(dict(name='f'), **dict(extra, **{k: t})), body)))


def attrs_():
    """(name, text -> schema, (lo, hi), observation -> stored value, further values excluded)"""
    L = []

    def add(nm, mk, rng, get, ok=None):
        L.append((nm, mk, rng, get, ok))
    add('schema.id', lambda t: schema('', id=t), U32, lambda o: o['schemas'][0]['id'])
    add('schema.version', lambda t: schema('', version=t), U32, lambda o: o['schemas'][0]['version'])
    add('schema.dslVersion', lambda t: schema('', dsl=t), U32, lambda o: o['schemas'][0]['dsl'])
    add('message.id', lambda t: schema('', el('message', dict(name='m', id=t))), U64, lambda o: MSG(o)['id'])
    add('message.order', lambda t: schema('', el('message', dict(name='m', id=1, order=t))), U32, lambda o: MSG(o)['order'])
    big = 2**32 - 1
    add('field.sinceVersion', lambda t: schema('', el('message', dict(name='m', id=1), el('int', dict(name='f', type='uint8', sinceVersion=t))), version=big), (0, big - 1), lambda o: MSG(o)['fields'][0]['since'])
    add('field.deprecated', lambda t: schema('', el('message', dict(name='m', id=1), el('int', dict(name='f', type='uint8', deprecated=t))), version=big), (1, big), lambda o: MSG(o)['fields'][0]['depr'])
    add('message.sinceVersion', lambda t: schema('', el('message', dict(name='m', id=1, sinceVersion=t)), version=big), (0, big - 1), lambda o: MSG(o)['since'])
    add('message.deprecated', lambda t: schema('', el('message', dict(name='m', id=1, deprecated=t)), version=big), (1, big), lambda o: MSG(o)['depr'])
    for ty, n in (('int64', 8), ('uint8', 1), ('uintvar', 10), ('uint32', 4)):
        add('int.length', fld('int', dict(type=ty))('length'), (1, n), lambda o: F(o)['maxlen'])
    add('enum.length', fld('enum', dict(type='uint64'), '<validValue name="a" val="0"/>')('length'), (1, 8), lambda o: F(o)['maxlen'])
    add('set.length', fld('set', {}, '<bit name="a" idx="0"/>')('length'), (1, 8), lambda o: F(o)['maxlen'])
    for tag, a, b in (('int', dict(type='uint64'), ''), ('enum', dict(type='uint64'), '<validValue name="a" val="0"/>'), ('set', dict(type='uint64'), '<bit name="a" idx="0"/>')):
        def mk(t, tag=tag, a=a, b=b):
            v = T.py_num(t, 1, 63)
            pad = (64 - v) if v is not None else 8
            return schema('<bitfield name="b">%s<int name="p" type="uint64" bitLength="%d"/></bitfield>' % (el(tag, dict(dict(a, name='f'), bitLength=t), b), pad))
        add('%s.bitLength' % tag, mk, (1, 63), lambda o: F(o)['members'][0]['bitlen'])
    add('int.serOffset', fld('int', dict(type='int64'))('serOffset'), I64, lambda o: F(o)['seroff'])
    add('int.displayDecimals', fld('int', dict(type='int64'))('displayDecimals'), U32, lambda o: F(o)['dd'])
    add('int.displayOffset', fld('int', dict(type='int64'))('displayOffset'), I64, lambda o: F(o)['doff'])
    add('float.displayDecimals', fld('float', dict(type='double'))('displayDecimals'), U32, lambda o: F(o)['dd'])
    for i, ty in enumerate(S.PLEN):
        r = (S.TMIN[i], S.TMAX[i])
        add('int.defaultValue', fld('int', dict(type=ty))('defaultValue'), r, lambda o: F(o)['def'])
        add('int.special', (lambda ty: lambda t: schema(el('int', dict(name='f', type=ty), el('special', dict(name='s', val=t)))))(ty), r, lambda o: special(F(o)))
        add('enum.value', (lambda ty: lambda t: schema(el('enum', dict(name='f', type=ty), el('validValue', dict(name='s', val=t)))))(ty), r, lambda o: list(enum_values(F(o)))[0])
    add('int.validValue', fld('int', dict(type='int64'))('validValue'), I64, lambda o: F(o)['ranges'][0]['min'])
    add('set.bit.idx', lambda t: schema(el('set', dict(name='f', length=8), el('bit', dict(name='a', idx=t)))), (0, 63), lambda o: bit(F(o)))
    add('string.length', fld('string', {})('length'), (1, big), lambda o: F(o)['fixed'])
    add('data.length', fld('data', {})('length'), (1, big), lambda o: F(o)['fixed'])
    add('list.count', lambda t: schema(el('list', dict(name='f', count=t), el('int', dict(name='e', type='uint8')))), (1, big), lambda o: F(o)['fixed'])
    add('int.scaling', lambda t: schema(el('int', dict(name='f', type='uint8', scaling=t))), I64, lambda o: F(o)['sn'], lambda v: v != 0)
    add('int.scaling.num', lambda t: schema(el('int', dict(name='f', type='uint8', scaling=t + '/3'))), I64, lambda o: F(o)['sn'], lambda v: v != 0)
    add('int.scaling.denom', lambda t: schema(el('int', dict(name='f', type='uint8', scaling='3/' + t))), I64, lambda o: F(o)['sd'], lambda v: v != 0)
    add('field.validateMinLength', lambda t: schema(el('string', dict(name='f', length=T.py_num(t, 1, big) or 5, validateMinLength=t))), (1, big), lambda o: F(o)['minlen'])
    return L


def special(f):
    return f['specials'][0]['val']


def bit(f):
    return f['bits'][0]['idx']


def enum_values(f):
    return [v['val'] for v in f['values']]


def case(a, text):
    return ('S', a[1](text), (a[0], text, a[2], a))


def cases(rng, tier):
    A = attrs_()
    texts = T.num_texts(rng, 25 if tier == 'quick' else 400)
    for a in A:
        for t in dict.fromkeys(texts + [str(a[2][0]), str(a[2][0] - 1), str(a[2][1]), str(a[2][1] + 1), hex(a[2][1]), hex(a[2][1] + 1), '0%o' % a[2][1]]):
            yield case(a, t)


def judge(c, o):
    nm, t, (lo, hi), a = c[2]
    if t.strip() == '' or '0b' in t.lower() or (lo >= 0 and t.strip() in ('-0', '-00', '-0x0')):
        return None
    if nm == 'int.scaling' and '/' in t:
        return None
    exp = T.py_num(t, lo, hi)
    if exp is not None and a[4] is not None and not a[4](exp):
        exp = None
    if exp is None:
        if o.get('valid'):
            return ('%s accepted' % nm, '%s="%s" is no number in [%d, %d] but was accepted' % (nm, t, lo, hi))
        if not o.get('errs'):
            return ('%s silent' % nm, '%s="%s" rejected without a reported error' % (nm, t))
        return None
    if not o.get('valid'):
        return ('%s rejected' % nm, '%s="%s" rejected: %s' % (nm, t, (o.get('msgs') or [''])[0][-160:]))
    got = int(a[3](o))
    if got % 2**64 != exp % 2**64:
        return ('%s value' % nm, '%s="%s" is stored as %d' % (nm, t, got))
    return None
