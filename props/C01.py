"""C01: the value range of an integer field is exact."""
import itertools
import z3
from irv.contract import Contract, V
from irv.engine import And, Or, Not, Implies, bl, bv
from irv.xml import schema, parse_field, TYPES
from props import intspec as S

N = 'commsdsl::parse::'
I = N + 'ParseIntFieldImpl::'
SRCS = ['parse/ParseIntFieldImpl.cpp']
BOUND = 'generated int definitions: every type x length 0..12 x bit lengths x boundary and random 64-bit offsets'


def b64(v):
    return z3.BitVecVal(v & (2**64 - 1), 64)


def contracts():
    t32 = lambda cx: bv(cx.arg(0), 32)
    bits = lambda cx: bv(cx.arg(1), 64)
    valid_t = lambda cx: [('the type is one of the ten types', z3.ULT(t32(cx), 10))]
    pos = lambda cx: [('the number of bits is positive', bv(cx.arg(0), 64) != 0)]
    posvar = lambda cx: [('whole octets', And(z3.UGE(bv(cx.arg(0), 64), 8), z3.ULE(bv(cx.arg(0), 64), 80)))]
    calc_pre = lambda cx: valid_t(cx) + [('bits fit the type', And(bits(cx) != 0, z3.ULE(bits(cx), 8 * S.max_len(t32(cx))),
                                                                    Implies(S.is_var(t32(cx)), z3.UGE(bits(cx), 8))))]
    r = lambda cx: bv(cx.res, 64)
    own = lambda cx, m: cx.old('m_state.' + m)
    new = lambda cx, m: cx.new('m_state.' + m)
    L = [
        Contract(N + 'parseCalcMaxFixedSignedValue', requires=pos, ensures=lambda cx: [('largest two\'s complement value', r(cx) == S.smax_fixed(bv(cx.arg(0), 64)))], modifies=[]),
        Contract(N + 'parseCalcMinFixedSignedValue', requires=pos, ensures=lambda cx: [('smallest two\'s complement value', r(cx) == S.smin_fixed(bv(cx.arg(0), 64)))], modifies=[]),
        Contract(N + 'parseCalcMaxFixedUnsignedValue', requires=pos, ensures=lambda cx: [('largest unsigned value', r(cx) == S.umax_fixed(bv(cx.arg(0), 64)))], modifies=[]),
        Contract(N + 'parseCalcMaxVarUnsignedValue', requires=posvar, ensures=lambda cx: [('largest base-128 unsigned value', r(cx) == S.umax_var(bv(cx.arg(0), 64)))], modifies=[]),
        Contract(N + 'parseCalcMaxVarSignedValue', requires=posvar, ensures=lambda cx: [('largest base-128 signed value', r(cx) == S.smax_var(bv(cx.arg(0), 64)))], modifies=[]),
        Contract(N + 'parseCalcMinVarSignedValue', requires=posvar, ensures=lambda cx: [('smallest base-128 signed value', r(cx) == S.smin_var(bv(cx.arg(0), 64)))], modifies=[]),
        Contract(I + 'parseMaxTypeLength', requires=valid_t, ensures=lambda cx: [('octets of the type', r(cx) == S.max_len(t32(cx)))], modifies=[]),
        Contract(I + 'parseMinTypeValue', requires=valid_t, ensures=lambda cx: [('smallest value of the type', r(cx) == S.tmin(t32(cx)))], modifies=[]),
        Contract(I + 'parseMaxTypeValue', requires=valid_t, ensures=lambda cx: [('largest value of the type', r(cx) == S.tmax(t32(cx)))], modifies=[]),
        Contract(I + 'parseIsUnsigned', ensures=lambda cx: [('unsigned types', cx.res == S.is_uns(t32(cx)))], modifies=[]),
        Contract(I + 'parseIsTypeUnsigned', ensures=lambda cx: [('unsigned types', cx.res == S.is_uns(t32(cx)))], modifies=[]),
        Contract(I + 'parseIsBigUnsigned', ensures=lambda cx: [('64-bit unsigned types', cx.res == S.is_big(t32(cx)))], modifies=[]),
        Contract(I + 'parseCalcMinValue', requires=calc_pre, ensures=lambda cx: [('smallest serializable value', r(cx) == S.vmin(t32(cx), bits(cx)))], modifies=[]),
        Contract(I + 'parseCalcMaxValue', requires=calc_pre, ensures=lambda cx: [('largest serializable value', r(cx) == S.vmax(t32(cx), bits(cx)))], modifies=[]),
        Contract(I + 'parseMinLengthImpl', ensures=lambda cx: [('1 for variable length types, the length otherwise',
                                                                r(cx) == z3.If(S.is_var(own(cx, 'm_type')), b64(1), own(cx, 'm_length')))], modifies=[]),
        Contract(I + 'parseMaxLengthImpl', ensures=lambda cx: [('the length', r(cx) == own(cx, 'm_length'))], modifies=[]),
        Contract(I + 'parseUpdateSerOffset', ensures=S.ser_ens, modifies=['m_state.m_serOffset']).logs(),
        Contract(I + 'parseUpdateLength', requires=S.len_pre, ensures=S.len_ens, modifies=['m_state.m_length']).logs(),
        Contract(I + 'parseUpdateBitLength', requires=S.bit_pre, ensures=S.bit_ens, modifies=['m_state.m_bitLength']).logs(),
        Contract(I + 'parseUpdateType', requires=lambda cx: [], ensures=S.type_ens, modifies=['m_state.m_type']).logs(),
        Contract(I + 'parseUpdateEndian', ensures=S.endian_ens, modifies=['m_state.m_endian']).logs(),
        Contract(I + 'parseValidateBitLengthValueImpl', requires=lambda cx: [('length', And(own(cx, 'm_length') != 0, z3.ULE(own(cx, 'm_length'), 10)))],
                 ensures=lambda cx: [('accepted exactly for at most all bits of a fixed length type',
                                      cx.res == And(Not(S.is_var(own(cx, 'm_type'))), z3.ULE(bv(cx.arg(1), 64), 8 * own(cx, 'm_length')))),
                                     ('a rejection is reported', Implies(Not(cx.res), bl(cx.err())))], modifies=[]).logs(),
        Contract(I + 'parseUpdateMinMaxValues', requires=S.mm_pre, ensures=S.mm_ens,
                 modifies=['m_state.m_typeAllowedMinValue', 'm_state.m_typeAllowedMaxValue', 'm_state.m_minValue', 'm_state.m_maxValue'],
                 witness=lambda cx, ev: {k: ev(own(cx, k)) for k in ('m_type', 'm_length', 'm_bitLength', 'm_serOffset')}, weight=5).logs(),
    ]
    return L


def replay(label, w):
    if not w or 'm_type' not in w:
        return
    t = TYPES[w['m_type'] % 10]
    off = w['m_serOffset']
    off -= (1 << 64) if off >> 63 else 0
    bits, ln = w['m_bitLength'], w['m_length']
    for l in {ln, (bits + 7) // 8, None}:
        yield case(t, l, None, off)
        if 1 <= bits <= 64:
            yield case(t, l, bits, off)


def case(t, length, bits, off, inbf=True, extra=''):
    a = dict(name='f', type=t)
    if length is not None:
        a['length'] = length
    if off is not None:
        a['serOffset'] = off
    if bits is not None:
        a['bitLength'] = bits
    at = ' '.join('%s="%s"' % kv for kv in a.items())
    if bits is not None and inbf:
        pad = (-(bits)) % 8 if isinstance(bits, int) and 1 <= bits <= 64 else 8
        body = '<bitfield name="b"><int %s/>%s</bitfield>' % (at, '<int name="pad" type="uint8" bitLength="%d"/>' % pad if pad else '')
    else:
        body = '<int %s/>' % at
    return ('S', schema(body), dict(t=t, length=length, bits=bits, off=off, bf=bool(bits is not None and inbf)))


def cases(rng, tier):
    offs = [0, 1, -1, 100, -100, 254, 255, 256, -255, -256, 65534, 65535, -65535, 2**31, -2**31, 2**32 - 2, 2**32 - 1, -2**32, 2**62, -2**62, 2**63 - 1, -2**63, -2**63 + 1, 2**63 - 2,
            2**55, -2**55]
    for t in TYPES:
        for ln in [None] + list(range(0, 12)) + [2**64 - 1]:
            yield case(t, ln, None, None)
        ml = S.PLEN[t]
        for off in offs:
            yield case(t, None, None, off)
            for ln in sorted({1, ml - 1, ml} - {0}):
                yield case(t, ln, None, off)
        for bits in [0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 56, 63, 64, 65, 72, 2**32, 2**32 + 1]:
            for ln in {None, 1, ml}:
                yield case(t, ln, bits, None)
                yield case(t, ln, bits, None, False)
    n = 900 if tier == 'quick' else 12000
    for _ in range(n):
        t = rng.choice(TYPES)
        ml = S.PLEN[t]
        ln = rng.choice([None, None, rng.randint(1, ml), rng.randint(1, ml)])
        bits = rng.choice([None, None, rng.randint(1, 8 * (ln or ml))])
        k = rng.randint(0, 63)
        off = rng.choice([None, rng.randint(-2**63, 2**63 - 1), rng.choice([-1, 1]) * ((1 << k) + rng.randint(-2, 2)), rng.randint(-300, 300)])
        if off is not None and not -2**63 <= off < 2**63:
            off = None
        yield case(t, ln, bits, off)


def judge(c, o):
    i = c[2]
    exp = S.py_int(i['t'], i['length'], i['bits'], i['off'] or 0, i['bf'])
    if i['bf'] and exp is not None and not (exp['t'] not in ('intvar', 'uintvar')):
        exp = None
    acc = o.get('valid')
    if exp is None:
        if acc:
            return ('accepted', 'accepted although no such integer definition is valid: %r' % i)
        if not o.get('errs'):
            return ('silent', 'rejected without a reported error')
        return None
    if not acc:
        return ('rejected', 'valid definition rejected: %r (%s)' % (i, (o.get('msgs') or [''])[0][-200:]))
    f = parse_field(o)
    if i['bf']:
        f = f['members'][0]
    for k, w in (('min', exp['min']), ('max', exp['max']), ('seroff', i['off'] or 0), ('type', TYPES.index(i['t'])), ('maxlen', exp['length']), ('minlen', exp['minlen'])):
        if int(f[k]) != w:
            return (k, 'reported %s is %s instead of %s for %r' % (k, f[k], w, i))
    if i['bf'] and int(f['bitlen']) != exp['bits']:
        return ('bitlen', 'reported bit length %s instead of %s' % (f['bitlen'], exp['bits']))
    return None
