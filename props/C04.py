"""C04: enum values are in range, named uniquely and mapped exactly."""
import z3
from irv.contract import Contract, V
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, ObjS
from irv import stl, base as B
from irv.xml import schema, el, TYPES
from props import intspec as S, nodespec as X, textspec as TX

N = 'commsdsl::parse::'
E = N + 'ParseEnumFieldImpl::'
I = N + 'ParseIntFieldImpl::'
SRCS = ['parse/ParseEnumFieldImpl.cpp', 'parse/ParseIntFieldImpl.cpp']
LAYOUT_SRCS = ['parse/ParseEnumFieldImpl.cpp']
BOUND = 'generated enum definitions'
INFO = N + 'ParseEnumField::ParseValueInfo'


def num_text(t, s):
    """(well formed, number) of the text of a value of a type"""
    big = S.is_big(t)
    return z3.If(big, B.num_u_ok(s, S.B10), B.num_i_ok(s, S.B10)), z3.If(big, B.num_u(s, S.B10), B.num_i(s, S.B10))


def value_of(eng, st, view, s, mod, values='m_state.m_values', cls=None):
    """(accepted, number) a text denotes in an enum: one of its own names, a reference, or a number"""
    t = view('m_state.m_type')
    q = view(values)
    key = SV(s)
    here = And(B.name_ok(s), bl(stl.present(eng, st, q.v, 'std::string', key, mod)))
    stl.map_find(eng, st, q.v, 'std::string', key, mod)
    own = q[stl.map_idx(st, q.v.store, key.z())][1]()('m_value') if not (isinstance(q.v.n, int) and q.v.n == 0) else z3.BitVecVal(0, 64)
    prot = eng.ident_of(st, view('m_protocol'))
    rv, rbig = X.refnum_v(prot, s), X.refnum_big(prot, s)
    rok = And(X.refnum_ok(prot, s), Not(And(Not(rbig), rv < 0, S.is_uns(t))), Not(And(rbig, Not(S.is_big(t)))))
    ref = B.refname_ok(s)
    nok, nv = num_text(t, s)
    return z3.If(here, z3.BoolVal(True), z3.If(ref, rok, nok)), z3.If(here, own, z3.If(ref, rv, nv))


def str_ens(cx):
    ok, v = value_of(cx.eng, cx.st1, cx.old, cx.str_arg(0).z(), cx.mod)
    return [('accepted exactly when the text is a name of the enum, a reference to a fitting number or a number', cx.res == ok),
            ('the value is the one denoted', Implies(cx.res, cx.deref(1, 'std::intmax_t') == v))]


def typed(cx):
    return [('the type is known', z3.ULT(S.M(cx, 'm_type'), 10))]


def in_type(v, t):
    u = S.is_uns(t)
    return And(S.ext(S.tmin(t), u) <= S.ext(v, u), S.ext(v, u) <= S.ext(S.tmax(t), u))


def range_pre(cx):
    t = S.M(cx, 'm_type')
    return typed(cx) + [('limits of the type are known', And(S.M(cx, 'm_typeAllowedMinValue') == S.tmin(t), S.M(cx, 'm_typeAllowedMaxValue') == S.tmax(t)))]


def default_ens(cx):
    t = S.M(cx, 'm_type')
    s = S.prop_str(cx, 'defaultValue')
    g = S.given(cx, 'defaultValue')
    ok, v = value_of(cx.eng, cx.st1, cx.old, s, cx.mod)
    d0, d1 = S.M(cx, 'm_defaultValue'), S.M(cx, 'm_defaultValue', True)
    return [('accepted exactly when not given, or given once as a value of the type', cx.res == And(z3.ULE(S.prop(cx, 'defaultValue'), 1), Implies(g, And(ok, in_type(v, t))))),
            ('the default is the written value, unchanged when not given', Implies(cx.res, d1 == z3.If(g, v, d0))), S.rejected_reports(cx)]


def mm_ens(cx):
    t, b = S.M(cx, 'm_type'), S.M(cx, 'm_bitLength')
    n = lambda m: S.M(cx, m, True)
    return [('accepted', cx.res), ('limits of the type', And(n('m_typeAllowedMinValue') == S.tmin(t), n('m_typeAllowedMaxValue') == S.tmax(t))),
            ('limits of the serialized number', And(n('m_minValue') == S.vmin(t, b), n('m_maxValue') == S.vmax(t, b)))]


# ------------------------------------------------------------------ the values
def pair(eng, st, c, name, value, which):
    """both views are extended together: the second insertion mirrors the first"""
    pend = st.g.pop('gh:pair', None)
    if pend is None:
        st.g['gh:pair'] = (which, name, value)
        return []
    if pend[0] == which:
        return [('the two views of the values are extended together', False)]
    return [('the number-to-name view gets the pair of the name-to-number view', And(pend[1] == name, pend[2] == value))]


def this_view(eng, st, c):
    """the enum whose container is being extended"""
    p = eng.this_of_run
    return V(eng, st, p, N + 'ParseEnumFieldImpl', c.mod)


def ins_value(eng, st, c, m, key, src):
    me = this_view(eng, st, c)
    v = V(eng, st, src, INFO, c.mod)('m_value')
    nm = key.z()
    t = me('m_state.m_type')
    node = st.g['gh:node']
    txt = lambda k: X.text_of(eng, st, node, k, c.mod)
    ok, num = value_of(eng, st, me, txt('val'), c.mod)
    rev = me('m_state.m_revValues')
    out = [('the name is valid', B.name_ok(nm)), ('the name is the written one', nm == txt('name')),
           ('the number is the written one', And(ok, v == num)),
           ('the number is a value of the type', in_type(v, t)),
           ('no other value has the name', Not(bl(stl.present(eng, st, me('m_state.m_values').v, 'std::string', key, c.mod))))]
    if (st.g.get('gh:pair') or (None,))[0] != 'rev':
        out.append(('no other value has the number unless allowed', Or(me('m_state.m_nonUniqueAllowed'), Not(bl(stl.present(eng, st, rev.v, 'std::intmax_t', v, c.mod))))))
    return out + pair(eng, st, c, nm, v, 'values')


def ins_rev(eng, st, c, m, key, src):
    me = this_view(eng, st, c)
    nm = stl.get_str(eng, st, src).z()
    out = []
    if (st.g.get('gh:pair') or (None,))[0] != 'values':
        out.append(('no other value has the number unless allowed', Or(me('m_state.m_nonUniqueAllowed'), Not(bl(stl.present(eng, st, me('m_state.m_revValues').v, 'std::intmax_t', key, c.mod))))))
    return out + pair(eng, st, c, nm, bv(key, 64), 'rev')


def each_value(lp, s2):
    a, b = [V(lp.eng, x, lp.eng.this_of_run, N + 'ParseEnumFieldImpl', lp.fn.mod) for x in (lp.sh, s2)]
    return [('an accepted value is one more of the enum, in both views', And(s2.g.get('gh:pair') is None, *[b(m).n == a(m).n + 1 for m in VIEWS]))]


VIEWS = ('m_state.m_values', 'm_state.m_revValues')


def values_ens(cx):
    n = S.M(cx, 'm_values', True).n
    return [('an accepted enum has a value', Implies(cx.res, n != 0)), S.rejected_reports(cx)]


def values_pre(cx):
    return B.node_ok(cx) + range_pre(cx) + [('the views have the same values', (S.M(cx, 'm_values').n == 0) == (S.M(cx, 'm_revValues').n == 0))]


def remember_this(eng, st, b, mod):
    eng.this_of_run = b['this']


distinct = z3.Function('spec_distinct_numbers', ObjS, z3.BitVecSort(64), z3.BoolSort())


def ap_unique(eng, st, args, ins, mod, name):
    """whether the numbers are distinct: a function of the number-to-name view"""
    q = V(eng, st, args[0], N + 'ParseEnumFieldImpl', mod)('m_state.m_revValues')
    return [(st, 'ret', is_distinct(st, q))]


def is_distinct(st, q):
    n = q.n
    return z3.BoolVal(True) if isinstance(n, int) and n == 0 else distinct(st.obj(q.v.store).ident, bv(n, 64))


def non_ens(cx):
    from props import C14
    c = S.prop(cx, 'nonUniqueAllowed')
    s = S.prop_str(cx, 'nonUniqueAllowed')
    g = c != 0
    f0, f1 = S.M(cx, 'm_nonUniqueAllowed'), S.M(cx, 'm_nonUniqueAllowed', True)
    uniq = is_distinct(cx.st1, S.M(cx, 'm_revValues'))
    sup = S.supported(cx, C14.prop_since(SV('nonUniqueAllowed').z()))
    return [('equal numbers of a reused enum stay allowed', Implies(cx.res, Or(uniq, f1))),
            ('accepted exactly when given at most once as a boolean that leaves equal numbers allowed', cx.res == And(z3.ULE(c, 1), Implies(And(g, sup), B.bool_ok(s)), Or(uniq, z3.If(And(g, sup), B.bool_v(s), f0)))),
            ('the permission is the written one, unchanged when not written', Implies(cx.res, f1 == z3.If(And(g, sup), B.bool_v(s), f0))), S.rejected_reports(cx)]


STATE = ['m_type', 'm_endian', 'm_length', 'm_bitLength', 'm_nonUniqueAllowed', 'm_validCheckVersion', 'm_typeAllowedMinValue', 'm_typeAllowedMaxValue', 'm_minValue', 'm_maxValue', 'm_values', 'm_revValues', 'm_defaultValue',
         'm_hexAssign', 'm_availableLengthLimit']


def contracts():
    from props import C01
    keep = ('parseMinTypeValue', 'parseMaxTypeValue', 'parseMaxTypeLength', 'parseIsUnsigned', 'parseIsTypeUnsigned', 'parseIsBigUnsigned', 'parseCalcMinValue', 'parseCalcMaxValue', 'parseCalcMaxFixedSignedValue',
            'parseCalcMinFixedSignedValue', 'parseCalcMaxFixedUnsignedValue', 'parseCalcMaxVarUnsignedValue', 'parseCalcMaxVarSignedValue', 'parseCalcMinVarSignedValue')
    helpers = [c for c in C01.contracts() if c.name.rsplit('::', 1)[1] in keep]
    from props import C14
    st = lambda *m: ['m_state.' + x for x in m]
    return X.contracts() + helpers + [
        Contract(E + 'parseStrToValue', requires=typed, ensures=str_ens, modifies=[(1, 'std::intmax_t')]).logs(),
        Contract(N + 'ParseFieldImpl::parseValidateAndUpdateBoolPropValue', ensures=C14.bool_ens, modifies=[(1, 'bool')], trusted=True, note='C14').logs(),
        Contract(E + 'parseIsUnique', apply_fn=ap_unique, trusted=True, note='the numbers are distinct: decided by the corpus'),
        Contract(E + 'parseUpdateNonUniqueAllowed', requires=B.node_ok, ensures=non_ens, modifies=st('m_nonUniqueAllowed')).logs(),
        Contract(E + 'parseUpdateDefaultValue', requires=range_pre, ensures=default_ens, modifies=st('m_defaultValue')).logs(),
        Contract(E + 'parseUpdateMinMaxValues', requires=S.mm_pre, ensures=mm_ens, modifies=st('m_typeAllowedMinValue', 'm_typeAllowedMaxValue', 'm_minValue', 'm_maxValue')),
        Contract(E + 'parseUpdateType', ensures=S.type_ens, modifies=st('m_type')).logs(),
        Contract(E + 'parseUpdateEndian', ensures=S.endian_ens, modifies=st('m_endian')).logs(),
        Contract(E + 'parseUpdateLength', requires=S.len_pre, ensures=S.len_ens, modifies=st('m_length')).logs(),
        Contract(E + 'parseUpdateBitLength', requires=S.bit_pre, ensures=S.bit_ens, modifies=st('m_bitLength')).logs(),
        Contract(E + 'parseUpdateValues', requires=values_pre, ensures=values_ens, modifies=st('m_values', 'm_revValues'), setup=remember_this,
                 inserts={'m_values': ins_value, 'm_revValues': ins_rev}, loops={E + 'parseUpdateValues': X.growing(N + 'ParseEnumFieldImpl', VIEWS, each_value)}, weight=5).logs(),
    ]



# ---------------------------------------------------------------- replay corpus
import re
NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')
AUX = ('<int name="n5" type="uint8" defaultValue="5"/><int name="neg" type="int32" defaultValue="-3"><special name="Sp" val="-100"/></int><int name="big" type="uint64" defaultValue="0xffffffffffffff00"/>'
       '<enum name="e0" type="uint16" defaultValue="E2"><validValue name="E1" val="1"/><validValue name="E2" val="300"/></enum><enum name="e1" type="uint64" defaultValue="B1"><validValue name="B1" val="0xffffffffffffff00"/><validValue name="B2" val="7"/></enum>')
REFS = dict(n5=5, neg=-3, big=2**64 - 256, e0=300, e1=2**64 - 256)
REFS.update({'e1.B1': 2**64 - 256, 'e1.B2': 7, 'neg.Sp': -100, 'e0.E1': 1, 'e0.E2': 300})


def num(t, text, own):
    """number a value text denotes in an enum of a type, or None"""
    lo, hi = S.TMIN[TYPES.index(t)], S.TMAX[TYPES.index(t)]
    text = text.strip(' \t\n\r')
    if text in own:
        v = own[text]
    elif text in REFS:
        v = REFS[text]
    else:
        v = TX.py_num(text, *(TX.U64 if t in ('uint64', 'uintvar') else TX.I64))
    return v if v is not None and lo <= v <= hi else None


def define(d, base=None):
    """the enum a definition stands for, or None"""
    e = dict(base, vals=dict(base['vals'])) if base else dict(t=None, ln=0, bits=0, non=False, vals={}, df=0)
    a = d['a']
    if 'type' in a:
        if a['type'] not in TYPES or (e['t'] and e['t'] != a['type']):
            return None
        e['t'] = a['type']
    if not e['t']:
        return None
    ml = S.PLEN[e['t']]
    if 'length' in a:
        n = TX.py_num(a['length'], 1, ml)
        if n is None or (e['ln'] and e['ln'] != n):
            return None
        e['ln'] = n
    e['ln'] = e['ln'] or ml
    if 'bitLength' in a and d.get('bf'):
        n = TX.py_num(a['bitLength'], 1, 8 * e['ln'])
        if n is None or e['t'].endswith('var'):
            return None
        e['bits'] = n
    e['bits'] = e['bits'] or 8 * e['ln']
    was = len(set(e['vals'].values())) == len(e['vals'])
    if 'nonUniqueAllowed' in a:
        b = dict(true=True, false=False).get(a['nonUniqueAllowed'].lower(), dict([('1', True), ('0', False)]).get(a['nonUniqueAllowed']))
        if b is None:
            return None
        e['non'] = b
    if not was and not e['non']:
        return None
    for (nm, val) in d['vals']:
        if nm is None or val is None or not NAME.match(nm) or nm in e['vals']:
            return None
        v = num(e['t'], val, e['vals'])
        if v is None or (not e['non'] and v in e['vals'].values()):
            return None
        e['vals'][nm] = v
    if not e['vals']:
        return None
    if 'defaultValue' in a:
        v = num(e['t'], a['defaultValue'], e['vals'])
        if v is None:
            return None
        e['df'] = v
    return e


def text(d, name, reuse=None):
    a = dict(name=name, **d['a'])
    if reuse:
        a['reuse'] = reuse
    body = ''
    for i, (n, v) in enumerate(d['vals']):
        if d.get('kids', 0) >> i & 1:
            body += el('validValue', {}, (el('name', dict(value=n)) if n is not None else '') + (el('val', dict(value=v)) if v is not None else '') or ' ')
        else:
            body += el('validValue', dict([x for x in (('name', n), ('val', v)) if x[1] is not None]))
    return el('enum', a, body)


def case(d, base=None):
    if d.get('bf'):
        n = TX.py_num(d['a']['bitLength'], 1, 64) or 8
        pad = el('int', dict(name='pad', type='uint8', bitLength=(-n) % 8)) if n % 8 else ''
        body = '<bitfield name="bf">%s%s</bitfield>' % (text(d, 'f'), pad)
        return ('S', schema(AUX + body), (d, None))
    return ('S', schema(AUX + (text(base, 'base') + text(d, 'f', 'base') if base else text(d, 'f'))), (d, base))


def D(vals, bf=False, kids=0, **a):
    return dict(vals=vals, a=a, bf=bf, kids=kids)


def cases(rng, tier):
    for t in TYPES:
        lo, hi = S.TMIN[TYPES.index(t)], S.TMAX[TYPES.index(t)]
        for v in (lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, 2**31, 2**63 - 1, 2**63, 2**64 - 1):
            yield case(D([('a', str(v))], type=t))
            yield case(D([('a', hex(v)), ('b', '1'), ('c', '2')], type=t, defaultValue=str(v)))
            yield case(D([('a', '1'), ('b', '2')], type=t, defaultValue=str(v)))
            yield case(D([('a', str(v)), ('b', 'a')], type=t, nonUniqueAllowed='true'))
            yield case(D([('a', str(v)), ('b', str(v))], type=t))
        for r in REFS:
            yield case(D([('a', r), ('b', '7')], type=t))
            yield case(D([('a', '9'), ('b', '7')], type=t, defaultValue=r))
    for non in ('true', 'false', '1', '0', 'bogus', None):
        for rnon in ('true', 'false', '1', '0', None):
            for dup in (True, False):
                kw = {} if non is None else dict(nonUniqueAllowed=non)
                rkw = {} if rnon is None else dict(nonUniqueAllowed=rnon)
                b = D([('a', '5'), ('b', '5' if dup else '6')], type='int16', **kw)
                yield case(b)
                for more in ([], [('c', '5')], [('c', '9')], [('a', '9')], [('c', 'b')]):
                    yield case(D(more, **rkw), b)
    names = ['a', 'B1', '_x', '1a', 'a-b', '', 'a b', 'int', 'class', None, 'a.b']
    for n in names:
        yield case(D([(n, '1'), ('z', '2')], type='uint8'))
        yield case(D([('z', '2'), (n, '1')], kids=3, type='uint8'))
    for v in (None, '', 'x', '1.5', 'e0.E3', 'nope', '-1', '- 1', '0x', '1e2', 'a', 'z', 'e0.', '.E1'):
        yield case(D([('a', '3'), ('b', v)], type='int8'))
        yield case(D([('a', '3'), ('b', v)], type='uint64', kids=2))
    for _ in range(1500 if tier == 'quick' else 20000):
        t = rng.choice(TYPES)
        ml = S.PLEN[t]
        lo, hi = S.TMIN[TYPES.index(t)], S.TMAX[TYPES.index(t)]

        def val(own):
            k = rng.random()
            if k < 0.1 and own:
                return rng.choice(own)
            if k < 0.18:
                return rng.choice(sorted(REFS))
            if k < 0.25:
                return rng.choice([str(lo - 1), str(hi + 1), 'zz', str(lo), str(hi)])
            v = rng.choice([rng.randint(0, 6), rng.randint(0, 120), rng.randint(lo, hi), rng.choice([lo, hi])])
            return hex(v) if rng.random() < 0.3 else str(v)

        def vals(n, own):
            out = []
            for _ in range(n):
                nm = rng.choice('abcdefghijkl') + rng.choice(['', '', '1', '2'])
                out.append((nm, val(own + [x for x, _ in out])))
            return out
        a = dict(type=t)
        if rng.random() < 0.3:
            a['nonUniqueAllowed'] = rng.choice(['true', 'false'])
        if rng.random() < 0.3:
            a['length'] = str(rng.randint(1, ml))
        b = D(vals(rng.randint(1, 5), []), kids=rng.choice([0, 0, rng.randint(0, 31)]), **a)
        if rng.random() < 0.3:
            b['a']['defaultValue'] = val([x for x, _ in b['vals']])
        k = rng.random()
        if k < 0.4:
            yield case(b)
        elif k < 0.55 and not t.endswith('var'):
            b['bf'] = True
            b['a']['bitLength'] = str(rng.randint(1, 8 * int(a.get('length', ml)) + 1))
            yield case(b)
        else:
            a2 = {}
            if rng.random() < 0.4:
                a2['nonUniqueAllowed'] = rng.choice(['true', 'false'])
            if rng.random() < 0.3:
                a2['defaultValue'] = val([x for x, _ in b['vals']])
            if rng.random() < 0.1:
                a2['type'] = rng.choice(TYPES)
            yield case(D(vals(rng.randint(0, 3), [x for x, _ in b['vals']]), **a2), b)


def judge(c, o):
    d, base = c[2]
    if 'crash' in o:
        return ('crash', o['crash'][-300:])
    e = None
    b = define(base) if base else None
    if not base or b:
        e = define(d, b)
    if d.get('bf') and e and 8 * ((e['bits'] + 7) // 8) > 64:
        return None
    if e is None:
        if o.get('valid'):
            return ('accepted', 'accepted although no such enum definition is proper: %r reusing %r' % (d, base))
        return None if o.get('errs') else ('silent', 'rejected without a reported error: %r' % (d,))
    if not o.get('valid'):
        return ('rejected', 'a proper enum is rejected: %r reusing %r: %s' % (d, base, (o.get('msgs') or [''])[0][-200:]))
    f = {x['name']: x for x in o['schemas'][0]['ns'][0]['fields']}['bf' if d.get('bf') else 'f']
    if d.get('bf'):
        f = f['members'][0]
        if int(f['bitlen']) != e['bits']:
            return ('bits', 'bit length %s instead of %d' % (f['bitlen'], e['bits']))
    w = lambda v: int(v) % 2**64
    if {v['name']: w(v['val']) for v in f['values']} != {k: w(v) for k, v in e['vals'].items()} or len(f['values']) != len(e['vals']):
        return ('values', 'the values are %s instead of %s' % ([(v['name'], v['val']) for v in f['values']], e['vals']))
    if sorted((w(x['val']), x['name']) for x in f['rev']) != sorted((w(v), k) for k, v in e['vals'].items()):
        return ('rev', 'the number-to-name view is %s for %s' % (f['rev'], e['vals']))
    if w(f['def']) != w(e['df']):
        return ('def', 'the default value is %s instead of %d' % (f['def'], e['df']))
    u = len(set(e['vals'].values())) == len(e['vals'])
    if bool(f['uniq']) != u or bool(f['nonuniq']) != e['non']:
        return ('uniq', 'uniqueness is reported as %s, non-unique numbers allowed as %s: %r reusing %r' % (f['uniq'], f['nonuniq'], d, base))
    if int(f['maxlen']) != e['ln'] or int(f['minlen']) != (1 if e['t'].endswith('var') else e['ln']):
        return ('length', 'length %s..%s instead of %d' % (f['minlen'], f['maxlen'], e['ln']))
    return None


BOUND = 'generated enum definitions: every type x boundary values, references, names, duplicates with and without permission, reuse, bit lengths'
ASSUME = ['the children and properties of an XML node are functions of the node (libxml2)', 'a reference to another definition stands for the number parseStrToNumeric of the protocol gives (C18)',
          'fewer than 2^40 values']
