"""C06: bitfields consist of whole octets of bit-sized members."""
import z3
from irv.contract import Contract, V, load_typed
from irv.engine import And, Or, Not, Implies, bl, bv, Ptr, ObjS, Forall, Houdini
from irv import stl, base as B
from irv.xml import schema, el
from props import fold as F, intspec as S, C10, C13
from props.fold import c64

N = 'commsdsl::parse::'
FLD = N + 'ParseFieldImpl'
BF = N + 'ParseBitfieldFieldImpl'
B64 = z3.BitVecSort(64)
SRCS = ['parse/ParseField.cpp'] + ['parse/Parse%sImpl.cpp' % x for x in ('IntField', 'EnumField', 'SetField', 'BitfieldField', 'RefField', 'Field')]
LAYOUT_SRCS = SRCS[1:]
VEC = 'std::vector<std::unique_ptr<%s> >' % FLD
bits = z3.Function('obs_field_bitlen', ObjS, B64)
BITS = F.Fold('sum_of_bits', 'm_members', lambda e, s, p, a: a + bits(e.ident_of(s, p)), monotone=False)
raw = lambda p: Ptr(p.obj, p.off)
I = z3.BitVec('one_member', 64)


def versions(eng, st, p, mod):
    v = V(eng, st, raw(p), N + 'ParseObject', mod)
    return v('m_rState.m_sinceVersion'), v('m_rState.m_deprecated')


def same_versions(eng, st, p, q, mod):
    (a, b), (c, d) = versions(eng, st, p, mod), versions(eng, st, q, mod)
    return And(a == c, b == d)


def member_ok(eng, st, p, this, mod):
    return And(C10.alive(eng, st, p, FLD, mod), same_versions(eng, st, p, this, mod))


def ap_create(eng, st, args, ins, mod, nm):
    from irv.llparse import PTR
    oid = eng.lazy_obj(st, z3.FreshConst(ObjS, 'newfield'), FLD, 'newfield')
    st.wobj(oid).ext = False
    eng.store(st, args[0], Ptr(oid), PTR, mod)
    return [(st, 'ret', None)]


def ap_parse(eng, st, args, ins, mod, nm):
    r = C10.lazify(FLD, lambda v: v('m_state.m_name'))(eng, st, args, ins, mod, nm)
    return r


def ap_names(eng, st, args, ins, mod, nm):
    oid = eng.lazy_obj(st, z3.FreshConst(ObjS, 'names'), None, 'names')
    st.wobj(oid).kind, st.wobj(oid).ext = 'nonnull', False
    C13.ap_names(eng, st, [Ptr(oid)], ins, mod, nm)
    return [(st, 'ret', Ptr(oid))]


def read_loop(eng, st, fn, blk):
    sp = eng.__dict__.setdefault('_houdini', {})
    k = (fn.name, blk)
    if k not in sp:
        def gen(lp):
            this = eng.this_of_run
            Q = lambda s: V(eng, s, this, BF, fn.mod)('m_members')
            if not any(isinstance(k, tuple) and k[0] == this.obj for k in lp.hav):
                return [], []
            v = z3.FreshConst(B64, 'vm')
            ok = lambda s, i: member_ok(eng, s, Q(s)[i], this, fn.mod)
            for s in (lp.sh, lp.st):
                for i in (I, v):
                    Q(s).inst(i)
            cs = []
            if len(lp.iters) == 1:
                (oid, ck, store, i0, t) = lp.iters[0]
                cs.append(('len', 'as many members as nodes so far', lambda s: Q(s).n == bv(eng.pindex(s, s.obj(oid).cells.get(ck)[1]), 64)))
            return [], cs + [('members', 'every member exists and has the versions of the bitfield', lambda s: Implies(z3.ULT(v, Q(s).n), ok(s, v)),
                         lambda s: Forall(0, Q(s).n, v, ok(s, v), [], Q(s).v.store))]
        sp[k] = Houdini(gen)
    return sp[k]


class Loops(dict):
    def get(self, k, d=None):
        return lambda eng, st, fn, blk: (read_loop if k == BF + '::parseUpdateMembers' else F.loops([BITS], BF).f)(eng, st, fn, blk)

    def __bool__(self):
        return True


def members_pre(cx):
    q = cx.old('m_members')
    v = z3.FreshConst(B64, 'old')
    since, dep = versions(cx.eng, cx.st0, q[v], cx.mod)
    own = versions(cx.eng, cx.st0, cx.args['this'], cx.mod)[0]
    cx.st0.foralls.append(Forall(0, q.n, v, And(C10.alive(cx.eng, cx.st0, q[v], FLD, cx.mod), z3.ULE(since, own), dep == 2**32 - 1), [], q.v.store))
    return B.node_ok(cx) + [('fewer than 2^40 members', z3.ULT(q.n, 1 << 40))]


def total(cx):
    q = cx.new('m_members')
    cx.st1.assume(BITS.f(BITS.ident(cx.st1, q), c64(0)) == 0)
    return BITS.f(BITS.ident(cx.st1, q), q.n), q


def members_ens(cx):
    t, q = total(cx)
    return [('accepted only when there is a member', Implies(cx.res, q.n != 0)),
            ('accepted only when the bits of the members are whole octets', Implies(cx.res, z3.URem(t, c64(8)) == 0)),
            ('accepted only when the members have at most 64 bits', Implies(cx.res, z3.ULE(t, 64))),
            S.rejected_reports(cx)]


def exist(cx):
    q = cx.old('m_members')
    v = z3.FreshConst(B64, 'mem')
    cx.st0.foralls.append(Forall(0, q.n, v, Not(bl(q[v].nul)), [], q.v.store))
    cx.st0.assume(z3.ULT(q.n, 1 << 40))
    return []


def set_this(eng, st, b, mod):
    eng.this_of_run = b['this']
    eng.mod_of_run = mod


fits = z3.Function('spec_bits_allowed', ObjS, B64, z3.BoolSort())
longest = z3.Function('obs_field_maxlen', ObjS, B64)


def ap_fits(eng, st, args, ins, mod, nm):
    """whether a field may be a member with as many bits; a rejection is reported"""
    r = fits(eng.ident_of(st, raw(args[0])), bv(args[2], 64))
    B.may_report(eng, st, r)
    return [(st, 'ret', r)]


def fits_pre(cx):
    l = cx.old('m_state.m_length')
    return B.doc_ok(cx, 1) + [('the length is known', And(l != 0, z3.ULE(l, 10)))] if hasattr(B, 'doc_ok') else [('the length is known', And(l != 0, z3.ULE(l, 10)))]


def fits_ens(var):
    def ens(cx):
        l = cx.old('m_state.m_length')
        l = z3.ZeroExt(64 - l.size(), l) if l.size() < 64 else l
        ok = z3.ULE(bv(cx.arg(1), 64), 8 * l)
        if var:
            ok = And(ok, Not(S.is_var(cx.old('m_state.m_type'))))
        return [('as many bits as the length has' + (', and not a variable length' if var else ''), cx.res == ok), S.rejected_reports(cx)]
    return ens


def never(cx):
    return [('no other field can be a member', Not(cx.res)), ('a rejection is reported', bl(cx.err()))]


def target_id(cx):
    p = cx.old('m_field')
    return cx.eng.ident_of(cx.st0, raw(p))


def ref_fits(cx):
    return [('what the target says', cx.res == fits(target_id(cx), bv(cx.arg(1), 64))), S.rejected_reports(cx)]


def has_target(cx):
    return [('the target is known', Not(bl(cx.old('m_field').nul)))]


def ref_pre(cx):
    return B.node_ok(cx) + has_target(cx) + [('the target is not empty', longest(target_id(cx)) != 0)]


def ref_ens(cx):
    b0, b1 = cx.old('m_state.m_bitLength'), cx.new('m_state.m_bitLength')
    wide = lambda x: z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
    s, g, inb = S.prop_str(cx, 'bitLength'), S.given(cx, 'bitLength'), S.in_bitfield(cx)
    v = z3.ZeroExt(32, B.num_n(s, S.B10))
    whole = longest(target_id(cx)) * 8
    n = z3.If(g, v, whole)
    return [('accepted exactly when outside of a bitfield, or with a bit length the target allows',
             cx.res == And(z3.ULE(S.prop(cx, 'bitLength'), 1), Implies(inb, And(Implies(g, And(B.num_n_ok(s, S.B10), v != 0)), fits(target_id(cx), n))))),
            ('the bits are the written ones, else all of the target', Implies(And(cx.res, inb), wide(b1) == n)), S.rejected_reports(cx)]


def own_bits(cx):
    b = cx.old('m_state.m_bitLength')
    b = z3.ZeroExt(64 - b.size(), b) if b.size() < 64 else b
    return [('the bits of a bitfield member, none elsewhere', cx.res == z3.If(S.in_bitfield(cx), b, c64(0)))]


def octets(cx):
    t, q = total(cx)
    return [('the bits of the members, in octets', cx.res == z3.UDiv(t, c64(8)))]


def contracts():
    from props import C01, C04
    st = lambda *m: ['m_state.' + x for x in m]
    return [
        Contract('virtual ' + FLD + '::parseBitLengthImpl', cls=FLD, pure='field_bitlen', trusted=True, note='the bits of a member: every override is under contract here'),
        Contract(N + 'ParseXmlWrap::parseGetChildren', apply_fn=C10.ap_children, trusted=True, note='libxml2 tree'),
        Contract(FLD + '::parseCreate', apply_fn=ap_create, trusted=True, note='a new field object (parseGetChildren only gives nodes with the name of a member)'),
        Contract(FLD + '::parse', apply_fn=ap_parse, trusted=True, note='a rejection is reported (C16)'),
        Contract(BF + '::parseSupportedTypes', apply_fn=ap_names, trusted=True, note='names of the members (decided by the corpus)'),
        Contract(FLD + '::parseValidateMembersNames', sig='const', ensures=lambda cx: [S.rejected_reports(cx)], modifies=[], trusted=True, note='C10').logs(),
        Contract(BF + '::parseUpdateMembers', requires=members_pre, ensures=members_ens, modifies=['m_members'], callable=False, setup=set_this, loops=Loops()).logs(),
        Contract('virtual ' + FLD + '::parseValidateBitLengthValueImpl', cls=FLD, apply_fn=ap_fits, trusted=True, note='every override is under contract here'),
        Contract('virtual ' + FLD + '::parseMaxLengthImpl', cls=FLD, pure='field_maxlen', trusted=True, note='C07'),
        Contract(N + 'ParseRefFieldImpl::parseMaxLengthImpl', requires=has_target, ensures=lambda cx: [('the maximum of the field', cx.res == longest(target_id(cx)))], modifies=[]),
        Contract(N + 'ParseRefFieldImpl::parseUpdateBitLength', requires=ref_pre, ensures=ref_ens, modifies=st('m_bitLength'), callable=False).logs(),
        Contract(N + 'ParseRefFieldImpl::parseValidateBitLengthValueImpl', requires=has_target, ensures=ref_fits, modifies=[], callable=False).logs(),
        Contract(FLD + '::parseValidateBitLengthValueImpl', requires=lambda cx: B.node_ok(cx) + [('the kind is known', z3.ULT(S.field_kind(cx.ident(cx.args['this'])), 12))], ensures=never, modifies=[], callable=False).logs(),
        Contract(BF + '::parseMinLengthImpl', requires=exist, ensures=octets, modifies=[], callable=False, setup=set_this, loops=F.loops([BITS], BF)),
        Contract(FLD + '::parseBitLengthImpl', ensures=lambda cx: [('no bits', cx.res == 0)], modifies=[], callable=False),
    ] + [Contract(N + 'Parse%sFieldImpl::parseBitLengthImpl' % k, ensures=own_bits, modifies=[], callable=False) for k in ('Int', 'Enum', 'Set', 'Ref')] + [
        Contract(N + 'Parse%sFieldImpl::parseValidateBitLengthValueImpl' % k, requires=fits_pre, ensures=fits_ens(k != 'Set'), modifies=[], callable=k == 'Int').logs() for k in ('Int', 'Enum', 'Set')] + [
        Contract(N + 'Parse%sFieldImpl::parseUpdateBitLength' % k, requires=S.bit_pre, ensures=S.bit_ens, modifies=st('m_bitLength'), callable=False).logs() for k in ('Int', 'Enum')]


# ------------------------------------------------------------------ the real parser against a table of what a bitfield may be
TYPES = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8, 'intvar': 10, 'uintvar': 10}
KINDS = ['int', 'enum', 'set', 'float', 'bitfield', 'bundle', 'string', 'data', 'list', 'ref', 'optional', 'variant']
AUX = ('<int name="i8" type="uint8"/><int name="i24" type="int32" length="3"/><int name="iv" type="uintvar" length="2"/><enum name="e16" type="uint16"><validValue name="V" val="0"/></enum><set name="s8" length="1"><bit name="b" idx="0"/></set>'
       '<ref name="r8" field="i8"/><ref name="rv" field="iv"/><float name="fl" type="float"/><string name="st" length="1"/><data name="da" length="1"/><bitfield name="bi"><int name="k" type="uint8"/></bitfield>'
       '<list name="li" count="1"><element><int name="k" type="uint8"/></element></list><optional name="op"><int name="k" type="uint8"/></optional><bundle name="bu"><int name="k" type="uint8"/></bundle><variant name="va"><int name="k" type="uint8"/></variant>')
REF = dict(i8=8, i24=24, e16=16, s8=8, r8=8)
OTHER = ['float', 'string', 'data', 'bitfield', 'list', 'optional', 'bundle', 'variant']


def mem(kind, name, **a):
    return dict(kind=kind, name=name, a=a)


def text_of(m):
    k, a = m['kind'], dict(name=m['name'], **m['a'])
    body = {'enum': '<validValue name="V" val="0"/>', 'set': '<bit name="b" idx="0"/>', 'bitfield': '<int name="k" type="uint8"/>', 'bundle': '<int name="k" type="uint8"/>', 'variant': '<int name="k" type="uint8"/>',
            'optional': '<int name="k" type="uint8"/>', 'list': '<element><int name="k" type="uint8"/></element>'}.get(k, '')
    extra = {'float': dict(type='float'), 'string': dict(length=1), 'data': dict(length=1), 'list': dict(count=1)}.get(k, {})
    return el(k, dict(extra, **a), body)


def whole_num(s):
    import re
    s = str(s).strip()
    if not re.fullmatch(r'(0x)?[0-9a-fA-F]+', s):
        return None
    try:
        return int(s, 0)
    except ValueError:
        return None


def member_bits(m):
    """bits of a member, None when it cannot be one"""
    k, a = m['kind'], m['a']
    b = whole_num(a['bitLength']) if 'bitLength' in a else None
    if 'bitLength' in a and not b:
        return None
    if k in ('int', 'enum'):
        t = a['type']
        ln = int(a.get('length', TYPES[t]))
        if t.endswith('var') or not 1 <= ln <= TYPES[t] or (b or 1) > 8 * ln:
            return None
        return b or 8 * ln
    if k == 'set':
        ln = int(a['length']) if 'length' in a else None
        if ln is None and b is None or ln is not None and not 1 <= ln <= 8 or (b or 1) > 8 * (ln or 8):
            return None
        return b or 8 * ln
    if k == 'ref':
        n = REF.get(a['field'])
        return None if n is None or (b or 1) > n else b or n
    return None


def define(d, base=None):
    """[(name, kind, bits)] or None"""
    ms = list(base) if base else []
    if d['replace'] is not None:
        if base is None:
            return None
        for r in d['replace']:
            i = [j for j, x in enumerate(ms) if x[0] == r['name']]
            b = member_bits(r)
            if not i or b is None:
                return None
            ms[i[0]] = (r['name'], r['kind'], b)
    groups = [g for g in (d['direct'], d['inside']) if g is not None]
    if len(groups) == 2 and d['direct']:
        return None
    if d['inside'] is not None or d['direct']:
        if base:
            return None
        for m in d['inside'] if d['inside'] is not None else d['direct']:
            b = member_bits(m)
            if b is None or m['a'].get('sinceVersion') not in (None, d['since']):
                return None
            ms.append((m['name'], m['kind'], b))
    t = sum(x[2] for x in ms)
    return ms if ms and t % 8 == 0 and t <= 64 else None


def D(direct=None, inside=None, replace=None, since=None, extra=''):
    return dict(direct=direct, inside=inside, replace=replace, since=since, extra=extra)


def body(d):
    out = ''.join(map(text_of, d['direct'] or []))
    if d['inside'] is not None:
        out += '<members>%s</members>' % ''.join(map(text_of, d['inside']))
    if d['replace'] is not None:
        out += '<replace>%s</replace>' % ''.join(map(text_of, d['replace']))
    return out


def field_text(d, name, reuse=None):
    a = dict(name=name)
    if reuse:
        a['reuse'] = reuse
    if d['since']:
        a['sinceVersion'] = d['since']
    return el('bitfield', a, body(d))


def case(d, base=None):
    w = define(base) if base else None
    want = None if base and w is None else define(d, w)
    t = (field_text(base, 'x1') if base else '') + field_text(d, 'x2', 'x1' if base else None)
    if d['since']:
        return ('S', schema(AUX, '<message name="M" id="1"><fields>%s</fields></message>' % t, version=5), (d, base, want, 1))
    return ('S', schema(AUX + t), (d, base, want, 0))


def cases(rng, tier):
    I8 = lambda n, b, **a: mem('int', n, type='uint8', bitLength=b, **a)
    for k in KINDS:
        if k != 'ref':
            m = mem(k, 'q', **({'type': 'uint8'} if k in ('int', 'enum') else {'length': 1} if k == 'set' else {}))
            for n in (dict(direct=[m]), dict(inside=[m]), dict(direct=[m, I8('p', 8)]), dict(inside=[I8('p', 8), m])):
                yield case(D(**n))
            yield case(D(replace=[dict(m, name='p')]), D(direct=[I8('p', 8)]))
    for f in ('i8', 'i24', 'iv', 'e16', 's8', 'r8', 'rv', 'fl', 'st', 'da', 'bi', 'li', 'op', 'bu', 'va', 'nope'):
        for b in (None, 1, 7, 8, 16, 24, 25, 0, '0x8', 'x', '-8'):
            m = mem('ref', 'q', field=f, **({} if b is None else dict(bitLength=b)))
            n = member_bits(m) or 8
            yield case(D(direct=[m] + ([I8('p', 8 - n % 8)] if n % 8 else [])))
            yield case(D(replace=[m]), D(direct=[I8('q', 8), I8('p', 8)]))
    for t in TYPES:
        for k in ('int', 'enum'):
            for ln in [None] + list(range(0, TYPES[t] + 2)):
                for b in (None, 1, 8 * (ln or TYPES[t]), 8 * (ln or TYPES[t]) + 1, 0, 'x'):
                    a = dict(type=t)
                    if ln is not None:
                        a['length'] = ln
                    if b is not None:
                        a['bitLength'] = b
                    m = mem(k, 'q', **a)
                    n = member_bits(m) or 8
                    yield case(D(direct=[m] + ([I8('p', 8 - n % 8)] if n % 8 else [])))
    yield case(D())
    yield case(D(inside=[]))
    yield case(D(direct=[I8('a', 8)], inside=[]))
    yield case(D(direct=[I8('a', 8)], inside=[I8('b', 8)]))
    yield case(D(inside=[]), D(direct=[I8('a', 8)]))
    for s in ('2', '3'):
        for v in (None, '2', '3', '4'):
            m = I8('a', 8, **({} if v is None else dict(sinceVersion=v)))
            yield case(D(direct=[m, I8('b', 8)], since=s))
            yield case(D(inside=[I8('b', 8), m], since=s))
    for n in range(1, 70):
        yield case(D(direct=[mem('int', 'a', type='uint64', bitLength=min(n, 64))] + ([I8('b', n - 64)] if n > 64 else [])))
        yield case(D(inside=[I8('m%02d' % i, 1) for i in range(n)]))
        yield case(D(direct=[mem('set', 'a', bitLength=n)]))

    def member(name):
        k = rng.choice(['int', 'enum', 'set', 'ref'] if rng.random() < 0.98 else KINDS)
        if k in ('int', 'enum'):
            t = rng.choice(list(TYPES)[:8])
            a = dict(type=t)
            if rng.random() < 0.3:
                a['length'] = rng.randint(1, TYPES[t])
            if rng.random() < 0.8:
                a['bitLength'] = rng.randint(1, min(8 * a.get('length', TYPES[t]), 20))
        elif k == 'set':
            a = {}
            if rng.random() < 0.5:
                a['length'] = rng.randint(1, 4)
            if not a or rng.random() < 0.5:
                a['bitLength'] = rng.randint(1, min(8 * a.get('length', 8), 20))
        elif k == 'ref':
            a = dict(field=rng.choice(list(REF)))
            if rng.random() < 0.8:
                a['bitLength'] = rng.randint(1, REF[a['field']])
        else:
            a = {}
        return mem(k, name, **a)

    def members():
        ms = [member('abcdefgh'[i]) for i in range(rng.randint(1, 5))]
        t = sum(member_bits(m) or 0 for m in ms)
        if t % 8 and rng.random() < 0.85:
            ms.insert(rng.randint(0, len(ms)), I8('z', 8 - t % 8))
        return ms
    for _ in range(1500 if tier == 'quick' else 20000):
        d = D(**{rng.choice(['direct', 'inside']): members()})
        if rng.random() < 0.4:
            yield case(d)
            continue
        ms = d['direct'] or d['inside']
        rs = [member(m['name']) for m in rng.sample(ms, rng.randint(0, min(2, len(ms))))] if rng.random() < 0.85 else [member('zz')]
        if rng.random() < 0.6:      # the replacement of one fits again
            i = {m['name'] for m in rs}
            rest = [m for m in ms if m['name'] not in i]
            t = sum(member_bits(m) or 0 for m in rs) + sum(member_bits(m) or 0 for m in rest[1:])
            if rest:
                rs.append(I8(rest[0]['name'], 8 - t % 8))
        e = D(replace=rs) if rng.random() < 0.9 else D(replace=rs, inside=[I8('y', 8)])
        yield case(e, d)


def judge(c, o):
    d, base, want, where = c[2] if not isinstance(c[2], str) else (None,) * 4
    if not isinstance(o, dict) or 'crash' in o:
        return None
    if not o.get('valid'):
        if not o.get('errs'):
            return ('silent', 'rejected without a reported error')
        return ('rejected', 'a proper bitfield is rejected: %s reusing %s: %s' % (body(d), body(base) if base else None, (o.get('msgs') or ['?'])[0])) if want is not None else None
    if want is None:
        return ('accepted', 'accepted although no such bitfield is proper: %s reusing %s' % (body(d), body(base) if base else None))
    n = o['schemas'][0]['ns'][0]
    f = [x for x in (n['msgs'][0]['fields'] if where else n['fields']) if x['name'] == 'x2'][0]
    got = [(x['name'], KINDS[x['kind']], int(x['bitlen'])) for x in f['members']]
    if got != want:
        return ('members', 'the members are %s instead of %s' % (got, want))
    t = sum(x[2] for x in want) // 8
    if (int(f['minlen']), int(f['maxlen'])) != (t, t):
        return ('length', 'the length of %s is %s..%s octets' % (want, f['minlen'], f['maxlen']))
    return None


BOUND = 'bitfields of every kind and size of member, in and outside of a list of members, reused and with replaced members, about 4000 (20000) schemas, against a table of what a bitfield may be'
ASSUME = ['the bits of members are read through their virtual functions, each of which is under contract here', 'the lists of allowed element names are decided by the corpus', 'fewer than 2^40 members']
