"""C08: version attributes are consistent with the schema and the parent."""
import z3
from irv.contract import Contract, V
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, ObjS
from irv import base as B
from irv import stl
from irv.xml import schema, parse_field, el
from props import intspec as S

N = 'commsdsl::parse::'
SRCS = ['parse/ParseMessageImpl.cpp']
BOUND = 'all combinations of since/deprecated values around the schema version and the parent values for messages, fields, bundle members, enum values, set bits, specials and ranges'
NYD = 2**32 - 1


def b32(v):
    return z3.BitVecVal(v, 32)


def schema_version(cx, prot):
    i = cx.ident(prot)
    f = z3.Function('obs_curr_schema', ObjS, ObjS)
    oid = cx.eng.lazy_obj(cx.st0, f(i), N + 'ParseSchemaImpl', 'schema')
    return cx.view(Ptr(oid), N + 'ParseSchemaImpl')('m_version')


def consistent(sv, since, depr, psince, pdepr):
    return And(z3.ULE(since, sv), z3.ULE(psince, since), z3.ULT(since, pdepr), z3.ULE(depr, pdepr), z3.ULT(since, depr), Or(depr == b32(NYD), z3.ULE(depr, sv)))


def check_pre(cx):
    return [('the parent is consistent', z3.ULT(bv(cx.arg(4), 32), bv(cx.arg(5), 32)))]


def check_ens(cx):
    sv = schema_version(cx, cx.arg(3))
    a = [bv(cx.arg(i), 32) for i in (1, 2, 4, 5)]
    return [('accepted exactly when consistent with schema and parent', cx.res == consistent(sv, *a)), S.rejected_reports(cx)]


def mapprop(cx, mp, key):
    """(count, first text) of a property in a map argument"""
    eng, st = cx.eng, cx.st1
    c = B.prop_count(eng, cx.st0, mp, SV(key), cx.mod, st)
    v = stl.get_vec(eng, cx.st0, mp, stl.node_type('std::string', 'std::string'), cx.mod, 'map', 'std::string', True)
    kt = SV(key).z()
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(cx.st0.obj(v.store).ident, kt)
    s = stl.get_str(eng, cx.st0, stl.idx_ptr(eng, cx.st0, v.store, idx).add(stl.pair_off2(eng, cx.mod, ['std::string', 'std::string']))).z()
    return c, s


B0 = z3.BitVecVal(0, 32)


def written(cx, mp, key, dflt):
    """(well formed, value) of a version property; dflt when not written"""
    c, s = mapprop(cx, mp, key)
    return Or(c == 0, B.num_n_ok(s, B0)), z3.If(c == 0, dflt, B.num_n(s, B0))


def get_pre(cx):
    ps, pd = cx.deref(3, 'unsigned int', False), cx.deref(4, 'unsigned int', False)
    return [('the parent is consistent', And(z3.ULT(ps, pd), z3.ULE(ps, schema_version(cx, cx.arg(5)))))]


def get_ens(cx):
    ps, pd = cx.deref(3, 'unsigned int', False), cx.deref(4, 'unsigned int', False)
    ns, nd = cx.deref(3, 'unsigned int'), cx.deref(4, 'unsigned int')
    oks, s = written(cx, cx.arg(2), 'sinceVersion', ps)
    okd, d = written(cx, cx.arg(2), 'deprecated', pd)
    sv = schema_version(cx, cx.arg(5))
    return [('accepted exactly for well formed consistent versions', cx.res == And(oks, okd, consistent(sv, s, d, ps, pd))),
            ('the versions are the written ones, else those of the parent', Implies(cx.res, And(ns == s, nd == d))),
            S.rejected_reports(cx)]


MEM = ['m_rState.m_sinceVersion', 'm_rState.m_deprecated', 'm_rState.m_deprecatedRemoved']


def upd_ens(field):
    def ens(cx):
        mp = cx.old.ptr('m_props')
        prot = cx.old('m_protocol')
        ps, pd = b32(0), b32(NYD)
        if field:
            p = cx.old('m_parent')
            pv = cx.view(Ptr(p.obj, p.off), N + 'ParseObject')
            k = S.obj_kind(cx.ident(p))
            has = And(Not(bl(p.nul)), k != 0)
            used = And(Not(bl(p.nul)), Or(k == 1, k == 2))
            ps = z3.If(has, pv('m_rState.m_sinceVersion'), ps)
            pd = z3.If(has, pv('m_rState.m_deprecated'), pd)
        oks, s = written(cx, mp, 'sinceVersion', ps)
        okd, d = written(cx, mp, 'deprecated', pd)
        cr, sr = mapprop(cx, mp, 'removed')
        sv = schema_version(cx, prot)
        single = And(*[z3.ULE(mapprop(cx, mp, k)[0], 1) for k in ('sinceVersion', 'deprecated', 'removed')])
        ok = And(single, oks, okd, consistent(sv, s, d, ps, pd), Or(cr == 0, B.bool_ok(sr)))
        if field:
            s, d = z3.If(used, s, b32(0)), z3.If(used, d, b32(NYD))
        n = [cx.new(m) for m in MEM]
        return [('accepted exactly for well formed consistent versions', cx.res == ok),
                ('introduced in the written version, else that of the parent', Implies(cx.res, n[0] == s)),
                ('deprecated in the written version, else that of the parent', Implies(cx.res, n[1] == d)),
                ('removed exactly if so written' + (' and deprecated' if field else ''), Implies(cx.res, n[2] == And(cr != 0, B.bool_v(sr), *([d != NYD] if field else [])))),
                S.rejected_reports(cx)]
    return ens


def field_pre(cx):
    p = cx.old('m_parent')
    pv = cx.view(Ptr(p.obj, p.off), N + 'ParseObject')
    ps, pd = pv('m_rState.m_sinceVersion'), pv('m_rState.m_deprecated')
    return [('the parent is consistent', Or(bl(p.nul), And(z3.ULT(ps, pd), z3.ULE(ps, schema_version(cx, cx.old('m_protocol')))))) ]


def msg_pre(cx):
    p = cx.old('m_parent')
    return [('the parent is a namespace', And(Not(bl(p.nul)), S.obj_kind(cx.ident(p)) == 0))]


def contracts():
    return [
        Contract(N + 'ParseXmlWrap::parseCheckVersions', requires=check_pre, ensures=check_ens, modifies=[]).logs(),
        Contract(N + 'ParseXmlWrap::parseGetAndCheckVersions', sig='multimap', requires=get_pre, ensures=get_ens, modifies=[(3, 'unsigned int'), (4, 'unsigned int')]).logs(),
        Contract(N + 'ParseFieldImpl::parseUpdateVersions', requires=field_pre, ensures=upd_ens(True), modifies=MEM, callable=False).logs(),
        Contract(N + 'ParseMessageImpl::parseUpdateVersions', requires=msg_pre, ensures=upd_ens(False), modifies=MEM, callable=False).logs(),
    ]


# ---------------------------------------------------------------- replay corpus
def va(s, d, r=None):
    a = {}
    if s is not None:
        a['sinceVersion'] = s
    if d is not None:
        a['deprecated'] = d
    if r is not None:
        a['removed'] = r
    return a


LEAF = {
    'field': lambda a: (el('int', dict(name='f', type='uint8', **a)), lambda f: f),
    'value': lambda a: (el('enum', dict(name='f', type='uint8'), el('validValue', dict(name='x', val=1, **a))), lambda f: f['values'][0]),
    'bit': lambda a: (el('set', dict(name='f', length=1), el('bit', dict(name='x', idx=1, **a))), lambda f: f['bits'][0]),
    'special': lambda a: (el('int', dict(name='f', type='uint8'), el('special', dict(name='x', val=1, **a))), lambda f: f['specials'][0]),
    'range': lambda a: (el('int', dict(name='f', type='uint8'), el('validRange', dict(value='[1,2]', **a))), lambda f: f['ranges'][0]),
    'vmin': lambda a: (el('int', dict(name='f', type='uint8'), el('validMin', dict(value='3', **a))), lambda f: f['ranges'][0]),
    'vmax': lambda a: (el('int', dict(name='f', type='uint8'), el('validMax', dict(value='3', **a))), lambda f: f['ranges'][0]),
    'vval': lambda a: (el('int', dict(name='f', type='uint8'), el('validValue', dict(value='3', **a))), lambda f: f['ranges'][0]),
    'fspecial': lambda a: (el('float', dict(name='f', type='double'), el('special', dict(name='x', val='1.0', **a))), lambda f: f['specials'][0]),
    'frange': lambda a: (el('float', dict(name='f', type='double'), el('validRange', dict(value='[1,2]', **a))), lambda f: f['ranges'][0]),
    'svalue': lambda a: (el('string', dict(name='f', length=4), el('validValue', dict(value='ab', **a))), lambda f: f['valid'][0]),
}


def case(sv, levels, leaf, va_leaf):
    """levels: version attributes of the message and of enclosing bundles; the leaf carries va_leaf"""
    body, get = LEAF[leaf](va_leaf) if leaf else ('', None)
    for i, a in reversed(list(enumerate(levels))):
        if i == 0:
            body = el('message', dict(name='m', id=1, **a), body)
        else:
            body = el('bundle', dict(name='b%d' % i, **a), body + el('int', dict(name='pad', type='uint8')))
    return ('S', schema('', body, version=sv), (sv, levels, leaf, va_leaf, get))


def cases(rng, tier):
    vals = [None, 0, 1, 2, 3, 5, 6, NYD - 1, NYD]
    for s in vals:
        for d in vals:
            for r in (None, 'true', 'false', 'x', ''):
                if r is None or rng.random() < 0.4:
                    yield case(5, [va(s, d, r)], None, {})
                    yield case(5, [{}], 'field', va(s, d, r))
            for ps, pd in ((None, None), (1, None), (2, 5), (None, 3), (3, 4), (0, 5)):
                yield case(5, [va(ps, pd)], 'field', va(s, d))
                yield case(5, [{}, va(ps, pd)], 'field', va(s, d))
                yield case(5, [va(ps, pd), {}], 'field', va(s, d))
                for leaf in LEAF:
                    if leaf != 'field' and rng.random() < (0.25 if tier == 'quick' else 1.0):
                        yield case(5, [va(ps, pd)], leaf, va(s, d))
    for _ in range(600 if tier == 'quick' else 6000):
        sv = rng.choice([0, 1, 2, 5, 100, NYD - 1, NYD])
        ch = [None, None, 0, 1, sv, max(sv - 1, 0), min(sv + 1, NYD), sv // 2, NYD, rng.randint(0, NYD)]
        lv = [va(rng.choice(ch), rng.choice(ch), rng.choice([None, None, 'true', '1', 'false'])) for _ in range(rng.randint(1, 3))]
        yield case(sv, lv, rng.choice(list(LEAF)), va(rng.choice(ch), rng.choice(ch)))


def one(sv, a, ps, pd):
    s, d = a.get('sinceVersion'), a.get('deprecated')
    s = ps if s is None else s
    d = pd if d is None else d
    r = a.get('removed')
    ok = ps <= s < pd and s < d <= pd and s <= sv and (d == NYD or d <= sv) and r in (None, 'true', 'false', '1', '0')
    return ok, s, d, r in ('true', '1')


def judge(c, o):
    sv, levels, leaf, a, get = c[2]
    ps, pd = 0, NYD
    exp, ok = [], True
    for v in levels + ([a] if leaf else []):
        k, ps, pd, r = one(sv, v, ps, pd)
        ok = ok and k
        exp.append((ps, pd, r))
    if o.get('valid') and not o.get('errs') and not ok:
        return ('accepted', 'inconsistent versions accepted: schema %d, %r' % (sv, (levels, leaf, a)))
    if not ok:
        return None if o.get('errs') else ('silent', 'rejected without a reported error')
    if not o.get('valid'):
        return ('rejected', 'consistent versions rejected: schema %d, %r: %s' % (sv, (levels, leaf, a), (o.get('msgs') or [''])[0][-160:]))
    x = o['schemas'][0]['ns'][0]['msgs'][0]
    for i, e in enumerate(exp):
        if i > 0:
            x = (x.get('fields') or x.get('members'))[0]
            if i == len(levels):
                x = get(x)
        if int(x['since']) != e[0] or int(x['depr']) != e[1]:
            return ('value', 'reported versions %s/%s instead of %s/%s' % (x['since'], x['depr'], e[0], e[1]))
        r = e[2] and (i == 0 or e[1] != NYD)           # without a deprecation the flag of a field is ignored
        if 'removed' in x and bool(x['removed']) != r:
            return ('removed', 'reported removal flag %s instead of %s' % (x['removed'], r))
    return None
