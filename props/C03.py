"""C03: the default, the valid ranges and the specials of an integer field stay in range and canonical."""
import z3
from irv.contract import Contract, V, get_str, set_str
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, ObjS, StrS
from irv import stl, base as B
from irv.xml import schema, el, TYPES
from props import intspec as S, nodespec as X, textspec as TX

N = 'commsdsl::parse::'
I = N + 'ParseIntFieldImpl::'
SRCS = ['parse/ParseIntFieldImpl.cpp']
LAYOUT_SRCS = ['parse/ParseIntFieldImpl.cpp']
RANGE = N + 'ParseIntField::ParseValidRangeInfo'
SPECIAL = N + 'ParseIntField::ParseSpecialValueInfo'
RANGES = 'm_state.m_validRanges'


def value_of(eng, st, view, s, mod):
    from props import C04
    return C04.value_of(eng, st, view, s, mod, 'm_state.m_specials')


def str_ens(cx):
    ok, v = value_of(cx.eng, cx.st1, cx.old, cx.str_arg(0).z(), cx.mod)
    return [('accepted exactly when the text is a special of the field, a reference to a fitting number or a number', cx.res == ok),
            ('the value is the one denoted', Implies(cx.res, cx.deref(1, 'std::intmax_t') == v))]


def typed(cx):
    return [('the type is known', z3.ULT(S.M(cx, 'm_type'), 10))]


def limits(cx):
    t = S.M(cx, 'm_type')
    return typed(cx) + [('limits of the type are known', And(S.M(cx, 'm_typeAllowedMinValue') == S.tmin(t), S.M(cx, 'm_typeAllowedMaxValue') == S.tmax(t)))]


def le(t, a, b):
    u = S.is_uns(t)
    big = S.is_big(t)
    return z3.If(big, z3.ULE(a, b), a <= b)


def in_type(v, t):
    return And(le(t, S.tmin(t), v), le(t, v, S.tmax(t)))


def default_of(cx, s, post=True):
    t = S.M(cx, 'm_type')
    ok, v = value_of(cx.eng, cx.st1, cx.old, s, cx.mod)
    return And(ok, in_type(v, t)), v


def def_int_ens(cx):
    ok, v = default_of(cx, cx.str_arg(0).z())
    d0, d1 = S.M(cx, 'm_defaultValue'), S.M(cx, 'm_defaultValue', True)
    return [('accepted exactly when the text denotes a value of the type', cx.res == ok), ('the default is the value denoted', Implies(cx.res, d1 == v)), S.rejected_reports(cx)]


def def_ens(cx):
    s = S.prop_str(cx, 'defaultValue')
    g = S.given(cx, 'defaultValue')
    ok, v = default_of(cx, s)
    d0, d1 = S.M(cx, 'm_defaultValue'), S.M(cx, 'm_defaultValue', True)
    return [('accepted exactly when not given, or given once as a value of the type', cx.res == And(z3.ULE(S.prop(cx, 'defaultValue'), 1), Implies(g, ok))),
            ('the default is the written value, unchanged when not given', Implies(cx.res, d1 == z3.If(g, v, d0))), S.rejected_reports(cx)]


def versions_of_field(cx):
    """the versions of the field itself"""
    w = cx.view(cx.args['this'], N + 'ParseObject')
    return w('m_rState.m_sinceVersion'), w('m_rState.m_deprecated')


def pushed(cx, cond, lo, hi, own_versions=True):
    """a range (lo, hi) was added exactly when cond"""
    q0, q1 = cx.old(RANGES), cx.new(RANGES)
    e = q1[q0.n]
    out = [('a range was added exactly when one is written', Implies(cx.res, q1.n == q0.n + z3.If(cond, S.v64(1), S.v64(0)))),
           ('its limits are the written ones', Implies(And(cx.res, cond), And(e('m_min') == lo, e('m_max') == hi)))]
    if own_versions:
        s, d = versions_of_field(cx)
        out.append(('it lives as long as the field', Implies(And(cx.res, cond), And(e('m_sinceVersion') == s, e('m_deprecatedSince') == d))))
    return out


def proper(eng, st, c):
    """every range added has its limits in order"""
    me = V(eng, st, eng.this_of_run, N + 'ParseIntFieldImpl', c.mod)
    q = me(RANGES)
    e = q[z3.simplify(q.n - 1)]
    t = me('m_state.m_type')
    return [('the limits of an added range are in order', le(t, e('m_min'), e('m_max')))]


def remember_this(eng, st, b, mod):
    eng.this_of_run = b['this']


def dvv_ens(cx):
    from props import C14
    c = S.prop(cx, 'defaultValidValue')
    s = S.prop_str(cx, 'defaultValidValue')
    sup = S.supported(cx, C14.prop_since(SV('defaultValidValue').z()))
    g = And(c != 0, sup)
    ok, v = default_of(cx, s)
    d0, d1 = S.M(cx, 'm_defaultValue'), S.M(cx, 'm_defaultValue', True)
    return [('accepted exactly when not given, or given once as a value of the type', cx.res == And(z3.ULE(c, 1), Implies(g, ok))),
            ('the default is the written value, unchanged when not given', Implies(cx.res, d1 == z3.If(g, v, d0))), S.rejected_reports(cx)] + pushed(cx, g, v, v)


range_ok = z3.Function('spec_range_ok', StrS, z3.BoolSort())
range_lo = z3.Function('spec_range_lo', StrS, StrS)
range_hi = z3.Function('spec_range_hi', StrS, StrS)


def ap_range(eng, st, args, ins, mod, name):
    from irv.llparse import INT
    s = get_str(eng, st, args[1]).z()
    set_str(eng, st, args[0], SV(range_lo(s)))
    set_str(eng, st, args[0].add(32), SV(range_hi(s)))
    if args[2].obj is not None:
        eng.store(st, args[2], range_ok(s), INT(1), mod)
    return [(st, 'ret', None)]


node_text_ok = z3.Function('obs_node_text_ok', ObjS, z3.BoolSort())
node_text = z3.Function('obs_node_text', ObjS, StrS)


def ap_node_value(eng, st, args, ins, mod, name):
    i = eng.ident_of(st, args[0])
    ok = node_text_ok(i)
    set_str(eng, st, args[2], SV(node_text(i)))
    B.may_report(eng, st, ok)
    return [(st, 'ret', ok)]


def read_range(cx, s):
    """(accepted, low, high) of the text of a range"""
    a, lo = value_of(cx.eng, cx.st1, cx.old, range_lo(s), cx.mod)
    b, hi = value_of(cx.eng, cx.st1, cx.old, range_hi(s), cx.mod)
    return And(range_ok(s), a, b, le(S.M(cx, 'm_type'), lo, hi)), lo, hi


def read_value(cx, s):
    a, v = value_of(cx.eng, cx.st1, cx.old, s, cx.mod)
    return a, v, v


def read_min(cx, s):
    a, v = value_of(cx.eng, cx.st1, cx.old, s, cx.mod)
    hi = S.M(cx, 'm_maxValue')
    return And(a, le(S.M(cx, 'm_type'), v, hi)), v, hi


def read_max(cx, s):
    a, v = value_of(cx.eng, cx.st1, cx.old, s, cx.mod)
    lo = S.M(cx, 'm_minValue')
    return And(a, le(S.M(cx, 'm_type'), lo, v)), lo, v


READ = [('validRange', 'Range', read_range), ('validValue', 'Value', read_value), ('validMin', 'Min', read_min), ('validMax', 'Max', read_max)]


def limits_ens(cx):
    return [('accepted exactly when the low limit is not above the high one', cx.res == le(S.M(cx, 'm_type'), bv(cx.arg(0), 64), bv(cx.arg(1), 64))), S.rejected_reports(cx)]


def text_ens(read, outs):
    def f(cx):
        ok, lo, hi = read(cx, cx.str_arg(0).z())
        out = [('accepted exactly when the text is well formed', cx.res == ok), S.rejected_reports(cx)]
        for i, w in outs:
            out.append(('the value is the one denoted', Implies(cx.res, cx.deref(i, 'std::intmax_t') == (lo, hi)[w])))
        return out
    return f


def attr_ens(key, read):
    def f(cx):
        c = B.prop_count(cx.eng, cx.st0, cx.arg(0), SV(key), cx.mod, cx.st1)
        v = stl.get_vec(cx.eng, cx.st1, cx.arg(0), stl.node_type(*X.PAIR), cx.mod, 'map', 'std::string', True)
        kt = SV(key).z()
        idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), X.B64)(cx.st1.obj(v.store).ident, kt)
        s = get_str(cx.eng, cx.st1, stl.idx_ptr(cx.eng, cx.st1, v.store, idx).add(stl.pair_off2(cx.eng, cx.mod, list(X.PAIR)))).z()
        ok, lo, hi = read(cx, s)
        return [('accepted exactly when not given or well formed', cx.res == Implies(c != 0, ok)), S.rejected_reports(cx)] + pushed(cx, c != 0, lo, hi)
    return f


def child_ens(read):
    def f(cx):
        i = cx.ident(cx.arg(0))
        ok, lo, hi = read(cx, node_text(i))
        return [('what is accepted is well formed', Implies(cx.res, And(node_text_ok(i), ok))), S.rejected_reports(cx)] + pushed(cx, z3.BoolVal(True), lo, hi, False)
    return f


def props_ens(key):
    def f(cx):
        c = B.prop_count(cx.eng, cx.st0, cx.arg(0), SV(key), cx.mod, cx.st1)
        n = X.children_n(cx.ident(cx.old('m_node')), SV(key).z())
        return [S.rejected_reports(cx), ('a range was added for the attribute and for every child', Implies(cx.res, cx.new(RANGES).n == cx.old(RANGES).n + z3.If(c != 0, S.v64(1), S.v64(0)) + n))]
    return f


def ins_special(eng, st, c, m, key, src):
    me = V(eng, st, eng.this_of_run, N + 'ParseIntFieldImpl', c.mod)
    v = V(eng, st, src, SPECIAL, c.mod)('m_value')
    nm = key.z()
    t = me('m_state.m_type')
    node = st.g['gh:node']
    txt = lambda k: X.text_of(eng, st, node, k, c.mod)
    ok, num = value_of(eng, st, me, txt('val'), c.mod)
    return [('the name is valid', B.name_ok(nm)), ('the name is the written one', nm == txt('name')), ('the number is the written one', And(ok, v == num)),
            ('the number is a value of the type', in_type(v, t)),
            ('no other special has the name', Not(bl(stl.present(eng, st, me('m_state.m_specials').v, 'std::string', key, c.mod))))]


def over_children(lp):
    """the loop walks over child elements"""
    ids = [lp.st.obj(x[2]).ident for x in lp.iters]
    return any(i is not None and z3.is_app(i) and i.decl().eq(X.children) for i in ids)


def each_special(lp, s2):
    if not over_children(lp):
        return []
    a, b = [V(lp.eng, x, lp.eng.this_of_run, N + 'ParseIntFieldImpl', lp.fn.mod) for x in (lp.sh, s2)]
    return [('an accepted special is one more of the field', b('m_state.m_specials').n == a('m_state.m_specials').n + 1)]


def node(cx):
    p = cx.arg(0)
    d = cx.eng.load(cx.st0, type(p)(p.obj, p.off).add(64), __import__('irv.llparse', fromlist=['PTR']).PTR, cx.mod)
    return [('the child exists', And(Not(bl(p.nul)), Not(bl(d.nul))))]


def contracts():
    from props import C01, C14
    keep = ('parseMinTypeValue', 'parseMaxTypeValue', 'parseMaxTypeLength', 'parseIsUnsigned', 'parseIsTypeUnsigned', 'parseIsBigUnsigned')
    helpers = [c for c in C01.contracts() if c.name.rsplit('::', 1)[1] in keep]
    st = lambda *m: ['m_state.' + x for x in m]
    OUT = {'m_validRanges': proper}
    both = lambda f: lambda cx: f(cx) + B.node_ok(cx)
    out = X.contracts() + helpers + [
        Contract(B.C + 'parseRange', apply_fn=ap_range, trusted=True, note='the two texts of a range: checked by the corpus'),
        Contract(N + 'ParseXmlWrap::parseNodeValue', apply_fn=ap_node_value, trusted=True, note='C17'),
        Contract(I + 'parseStrToValue', requires=typed, ensures=str_ens, modifies=[(1, 'std::intmax_t')]).logs(),
        Contract(I + 'parseUpdateDefaultValueInternal', requires=both(limits), ensures=def_int_ens, modifies=st('m_defaultValue')).logs(),
        Contract(I + 'parseUpdateDefaultValue', requires=both(limits), ensures=def_ens, modifies=st('m_defaultValue')).logs(),
        Contract(I + 'parseUpdateDefaultValidValue', requires=both(limits), ensures=dvv_ens, modifies=st('m_defaultValue', 'm_validRanges'), setup=remember_this, pushes=OUT).logs(),
        Contract(I + 'parseValidateRangeLimits', requires=both(typed), ensures=limits_ens, modifies=[]).logs(),
        Contract(I + 'parseValidateValidRangeStr', requires=both(typed), ensures=text_ens(read_range, [(1, 0), (2, 1)]), modifies=[(1, 'std::intmax_t'), (2, 'std::intmax_t')]).logs(),
        Contract(I + 'parseValidateValidValueStr', requires=both(typed), ensures=text_ens(read_value, [(2, 0)]), modifies=[(2, 'std::intmax_t')]).logs(),
        Contract(I + 'parseUpdateSpecials', requires=both(limits), ensures=lambda cx: [S.rejected_reports(cx)], modifies=st('m_specials'), setup=remember_this, inserts={'m_specials': ins_special},
                 loops={I + 'parseUpdateSpecials': X.growing(N + 'ParseIntFieldImpl', ('m_state.m_specials',), each_special)}, weight=5, merge=True).logs(),
        B.string_prop(),
    ]
    for key, nm, read in READ:
        out += [Contract(I + 'parseCheckValid%sAsAttr' % nm, requires=both(typed), ensures=attr_ens(key, read), modifies=st('m_validRanges'), setup=remember_this, pushes=OUT).logs(),
                Contract(I + 'parseCheckValid%sAsChild' % nm, requires=lambda cx: both(typed)(cx) + node(cx), ensures=child_ens(read), modifies=st('m_validRanges'), setup=remember_this, pushes=OUT).logs(),
                Contract(I + 'parseCheckValid%sProps' % nm, requires=both(typed), ensures=props_ens(key), modifies=st('m_validRanges'), setup=remember_this, loops={I + 'parseCheckValid%sProps' % nm: X.growing(N + 'ParseIntFieldImpl', (RANGES,), lambda lp, s2: [])}).logs()]
    return out


# ---------------------------------------------------------------- replay corpus
import re
NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')
NOT_DEPR = 2**32 - 1
KEYS = [k for k, _, _ in READ]


def is_big(t):
    return t in ('uint64', 'uintvar')


def den(t, text, own):
    """number a text denotes in an int field (None: none)"""
    from props import C04
    text = text.strip(' \t\n\r')
    if text in own:
        return own[text]
    if text in C04.REFS:
        v = C04.REFS[text]
        return None if (v < 0 and t.startswith('u')) or (v >= 2**63 and not is_big(t)) else v
    return TX.py_num(text, *(TX.U64 if is_big(t) else TX.I64))


def fits(t, v):
    i = TYPES.index(t)
    return S.TMIN[i] <= v <= S.TMAX[i]


def union(rs):
    """the values of each pair of versions as the fewest ranges"""
    out = []
    for w in sorted({r[2:] for r in rs}):
        cur = None
        for lo, hi in sorted(r[:2] for r in rs if r[2:] == w):
            if cur and lo <= cur[1] + 1:
                cur[1] = max(cur[1], hi)
            else:
                cur = [lo, hi]
                out.append((cur, w))
    return sorted((c[0], c[1]) + w for c, w in out)


def define(d, base=None):
    f = dict(base, sp=dict(base['sp']), rs=list(base['rs'])) if base else dict(t=None, ln=0, non=False, sp={}, rs=[], df=0)
    a = d['a']
    if 'type' in a:
        f['t'] = a['type']
        f['ln'] = int(a.get('length', S.PLEN[f['t']]))
    t = f['t']
    if 'non' in d:
        f['non'] = d['non']
    lo, hi = S.py_range(t, f['ln'], 8 * f['ln'], 0)
    for (nm, val) in d.get('sp', ()):
        if not NAME.match(nm) or nm in f['sp']:
            return None
        v = den(t, val, f['sp'])
        if v is None or not fits(t, v) or (not f['non'] and v in f['sp'].values()):
            return None
        f['sp'][nm] = v
    for k in ('defaultValue', 'defaultValidValue'):
        if k in a and (a[k] or k != 'defaultValue'):
            v = den(t, a[k], f['sp'])
            if v is None or not fits(t, v):
                return None
            f['df'] = v
            if k == 'defaultValidValue':
                f['rs'].append((v, v, 0, NOT_DEPR))
    for (k, txt, where, s, dp) in d.get('rs', ()):
        if k == 'validRange':
            m = re.match(r'\[([^,]*),([^,\]]*)\]\Z', txt.strip(' \t\n\r'))
            if not m:
                return None
            x, y = [den(t, q, f['sp']) for q in m.groups()]
        else:
            x = y = den(t, txt, f['sp'])
            if k == 'validMin':
                y = hi
            if k == 'validMax':
                x = lo
        if x is None or y is None or (k != 'validMin' and den(t, txt, f['sp']) is None and k != 'validRange') or (k == 'validMin' and x is None) or x > y:
            return None
        f['rs'].append((x, y, s if where else 0, dp if where and dp is not None else NOT_DEPR))
    f['rs'] = union(f['rs'])
    return f


def text(d, name, reuse=None):
    a = dict(name=name, **d['a'])
    if reuse:
        a['reuse'] = reuse
    if 'non' in d:
        a['nonUniqueSpecialsAllowed'] = 'true' if d['non'] else 'false'
    body = ''.join(el('special', dict(name=n, val=v)) for n, v in d.get('sp', ()))
    for (k, txt, where, s, dp) in d.get('rs', ()):
        v = dict([('sinceVersion', s)] if s else [], **({'deprecated': dp} if dp is not None else {}))
        if where == 0:
            a[k] = txt
        elif where == 1:
            body += el(k, dict(value=txt, **v))
        else:
            body += '<%s%s>%s</%s>' % (k, ''.join(' %s="%s"' % x for x in v.items()), txt, k)
    return el('int', a, body)


def case(d, base=None):
    from props import C04
    return ('S', schema(C04.AUX + (text(base, 'base') + text(d, 'f', 'base') if base else text(d, 'f')), version=6), (d, base))


def R(*rs, **a):
    """rs: (kind, text) or (kind, text, where, since, deprecated)"""
    rs = [r if len(r) == 5 else r + (1, 0, None) for r in rs]
    return dict(a=a, rs=rs)


def edge(t):
    i = TYPES.index(t)
    lo, hi = S.TMIN[i], S.TMAX[i]
    m = S.TMAX[i] // 2 + 1
    return sorted({x for c in (lo, hi, 0, m) for x in (c - 2, c - 1, c, c + 1, c + 2)})


def cases(rng, tier):
    for t in TYPES:
        es = [x for x in edge(t)]
        for v in es + [2**63 - 1, 2**63, 2**64 - 1, 2**64, -2**63 - 1]:
            for k in ('defaultValue', 'defaultValidValue'):
                yield case(R(type=t, **{k: str(v)}))
            yield case(dict(a=dict(type=t, defaultValue='a'), sp=[('a', str(v))]))
            for k in KEYS[1:]:
                yield case(R((k, str(v)), type=t))
                yield case(R((k, hex(v), 0, 0, None), type=t, length='1' if t not in ('intvar', 'uintvar') else '2'))
        for x in es:
            for y in es:
                yield case(R(('validRange', '[%d, %d]' % (x, y)), type=t))
                if x <= y and rng.random() < 0.3:
                    p, q = sorted(rng.sample(es, 2))
                    yield case(R(('validRange', '[%d, %d]' % (x, y)), ('validRange', '[%d,%d]' % (p, q)), type=t))
                    yield case(R(('validRange', '[%d, %d]' % (x, y)), ('validRange', '[%d,%d]' % (x, y)), ('validValue', str(y)), type=t))
    for s in ('[1,2]', '[ 1 , 2 ]', '[1 ,2]', '[,2]', '[1,]', '[,]', '[1,2', '1,2]', '1,2', '[1;2]', '[1,2,3]', '[[1,2]', '[1,2]]', ' [1,2] ', '[1, 2] x', '[]', '', '[a,2]', '[n5,e0]', '[neg,n5]', '[n5,big]', '[e0.E1,e0.E2]', '[1,0]', '[0x1,0xf]', '[\t1,\t2]', '[ ,5]', '[5, ]'):
        for t in ('uint8', 'int64', 'uint64'):
            for w in (0, 1, 2):
                yield case(R(('validRange', s, w, 0, None), type=t))
    for non in (None, True, False):
        for rnon in (None, True, False):
            for sp in ([], [('a', '5')], [('a', '5'), ('b', '5')], [('a', '5'), ('b', 'a')], [('a', '5'), ('b', '6')]):
                for more in ([('c', '5')], [('a', '9')], [('c', '7'), ('d', '7')], [('c', 'a')], []):
                    b = dict(a=dict(type='int16'), sp=sp, **({} if non is None else dict(non=non)))
                    d = dict(a={}, sp=more, **({} if rnon is None else dict(non=rnon)))
                    yield case(d, b)
    for _ in range(2500 if tier == 'quick' else 30000):
        t = rng.choice(TYPES + ['uint64', 'int64'])
        es = edge(t)
        lo, hi = es[2], es[-3]
        sp = [(n, str(rng.choice([rng.randint(0, 9), rng.choice(es)]))) for n in rng.sample('abcdef', rng.choice([0, 0, 1, 2, 3]))]
        names = [n for n, _ in sp]

        def one():
            k = rng.random()
            if k < 0.08 and names:
                return rng.choice(names)
            if k < 0.12:
                from props import C04
                return rng.choice(sorted(C04.REFS))
            v = rng.choice([rng.randint(0, 12), rng.randint(0, 40), rng.choice(es), rng.randint(lo, hi), hi - rng.randint(0, 12), lo + rng.randint(0, 12), (lo + hi) // 2 + rng.randint(-6, 6)])
            return str(v)

        def ranges(n, attrs):
            out = []
            for _ in range(n):
                k = rng.choice(KEYS + ['validRange'] * 3 + ['validValue'] * 2)
                w = rng.choice([0, 1, 1, 2]) if attrs and k not in [r[0] for r in out if r[2] == 0] else rng.choice([1, 2])
                txt = one()
                if k == 'validRange':
                    b = one()
                    if txt.lstrip('-').isdigit() and b.lstrip('-').isdigit() and int(txt) > int(b) and rng.random() < 0.95:
                        txt, b = b, txt
                    txt = '[%s, %s]' % (txt, b)
                s, dp = rng.choice([(0, None)] * 6 + [(2, None), (2, 5), (0, 4), (3, 4)]) if w else (0, None)
                out.append((k, txt, w, s, dp))
            return out
        a = dict(type=t)
        if rng.random() < 0.2 and not t.endswith('var'):
            a['length'] = str(rng.randint(1, S.PLEN[t]))
        if rng.random() < 0.3:
            a[rng.choice(['defaultValue', 'defaultValidValue'])] = one()
        b = dict(a=a, sp=sp, rs=ranges(rng.choice([1, 2, 3, 5, 9]) if rng.random() < 0.95 else 24, True))
        if rng.random() < 0.3:
            d = dict(a={}, sp=[], rs=ranges(rng.choice([0, 1, 3]), True))
            if rng.random() < 0.3:
                d['a'][rng.choice(['defaultValue', 'defaultValidValue'])] = one()
            yield case(d, b)
        else:
            yield case(b)


def judge(c, o):
    d, base = c[2]
    if 'crash' in o:
        return ('crash', o['crash'][-300:])
    b = define(base) if base else None
    f = define(d, b) if not base or b else None
    if f is None:
        if o.get('valid'):
            return ('accepted', 'accepted although no such int definition is proper: %r reusing %r' % (d, base))
        return None if o.get('errs') else ('silent', 'rejected without a reported error: %r' % (d,))
    if not o.get('valid'):
        return ('rejected', 'a proper int field is rejected: %r reusing %r: %s' % (d, base, (o.get('msgs') or [''])[0][-200:]))
    g = {x['name']: x for x in o['schemas'][0]['ns'][0]['fields']}['f']
    w = lambda v: int(v) % 2**64
    if w(g['def']) != w(f['df']):
        return ('def', 'the default value is %s instead of %d' % (g['def'], f['df']))
    if {s['name']: w(s['val']) for s in g['specials']} != {k: w(v) for k, v in f['sp'].items()}:
        return ('specials', 'the specials are %s instead of %s' % (g['specials'], f['sp']))
    got = [(w(r['min']), w(r['max']), int(r['since']), int(r['depr'])) for r in g['ranges']]
    exp = [(w(r[0]), w(r[1]), r[2], r[3]) for r in f['rs']]
    if got != exp:
        return ('ranges', 'the valid ranges are %s instead of %s: %r reusing %r' % (got, exp, d, base))
    return None


BOUND = 'generated int fields: every type x defaults, specials and lists of ranges around the limits of the type, references, versions, reuse'
ASSUME = ['the children and properties of an XML node are functions of the node (libxml2)', 'a reference to another definition stands for the number parseStrToNumeric of the protocol gives (C18)',
          'the two texts of a range (parseRange) and the merging of the ranges (parseUpdateValidRanges) are decided by the corpus, not proved', 'fewer than 2^40 ranges']
