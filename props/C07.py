"""C07: serialization length bounds compose and saturate."""
import z3
from irv.contract import Contract, V
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, ObjS, StrS, Forall
from irv import stl, base as B
from irv.xml import schema, el
from props import fold as F
from props.fold import SAT, sat_add, umax, c64

N = 'commsdsl::parse::'
FLD = N + 'ParseFieldImpl'
B64 = z3.BitVecSort(64)
SRCS = ['parse/parse_common.cpp', 'parse/ParseField.cpp'] + ['parse/Parse%sImpl.cpp' % x for x in
        ('IntField', 'EnumField', 'SetField', 'FloatField', 'BitfieldField', 'BundleField', 'StringField', 'DataField', 'ListField', 'RefField', 'OptionalField', 'VariantField', 'Field', 'Message')]
LAYOUT_SRCS = SRCS[2:]

lo = z3.Function('obs_field_minlen', ObjS, B64)
hi = z3.Function('obs_field_maxlen', ObjS, B64)
bits = z3.Function('obs_field_bitlen', ObjS, B64)
ordered = lambda i: z3.ULE(lo(i), hi(i))


def fv(eng, st, p):
    return V(eng, st, p, FLD, eng.mod_of_run)


def of(f):
    return lambda eng, st, p: f(eng.ident_of(st, p))


LENGTH = 3      # ParseField::SemanticType::Length


def sem_length(eng, st, p):
    return fv(eng, st, p)('m_state.m_semanticType') == LENGTH


MIN_B = F.Fold('sum_of_minimal_lengths', 'm_members', lambda e, s, p, a: sat_add(a, lo(e.ident_of(s, p))))
MAX_B = F.Fold('sum_of_maximal_lengths', 'm_members', lambda e, s, p, a: z3.If(sem_length(e, s, p), SAT, sat_add(a, hi(e.ident_of(s, p)))))
MAX_V = F.Fold('largest_maximal_length', 'm_members', lambda e, s, p, a: umax(a, hi(e.ident_of(s, p))))
BITS = F.Fold('sum_of_bits', 'm_members', lambda e, s, p, a: a + bits(e.ident_of(s, p)), monotone=False)
MAX_M = F.Fold('sum_of_maximal_lengths', 'm_state.m_fields', lambda e, s, p, a: sat_add(a, hi(e.ident_of(s, p))))


def msg_min(e, s, p, a):
    own = V(e, s, e.this_of_run, N + 'ParseObject', e.mod_of_run)('m_rState.m_sinceVersion')
    since = obj_since(e, s, p)
    return z3.If(z3.ULT(own, since), a, sat_add(a, lo(e.ident_of(s, p))))


def obj_since(e, s, p):
    return V(e, s, p, N + 'ParseObject', e.mod_of_run)('m_rState.m_sinceVersion')


MIN_M = F.Fold('sum_of_minimal_lengths', 'm_state.m_fields', msg_min)


def set_this(eng, st, b, mod):
    eng.this_of_run = b['this']
    eng.mod_of_run = mod


def order_fact(eng, st, fo, q, t):
    return [ordered(eng.ident_of(st, fo.elem(eng, st, q, t)))]


def exist(cx, member):
    """the elements of a container of pointers exist"""
    q = cx.old(member)
    v = z3.FreshConst(B64, 'mem')
    cx.st0.foralls.append(Forall(0, q.n, v, Not(bl(q[v].nul)), [], q.v.store))
    cx.st0.assume(z3.ULT(q.n, 1 << 40))
    return []


def fold_pre(member, extra=None):
    def req(cx):
        exist(cx, member)
        return extra(cx) if extra else []
    return req


def total(cx, fo):
    q = cx.new(fo.member)
    if F.empty(q):
        return c64(fo.start)
    cx.st1.assume(fo.f(fo.ident(cx.st1, q), c64(0)) == fo.start)
    return fo.f(fo.ident(cx.st1, q), q.n)


def lemmas(cx, fo):
    q = cx.new(fo.member)
    return [] if F.empty(q) else fo.lemma(cx.eng, cx.st1, q, z3.FreshConst(B64, 'fx'))


def sum_ens(fo, text, least=None):
    def ens(cx):
        out = lemmas(cx, fo) + [(text, cx.res == total(cx, fo))]
        if least is not None:
            out.append(('the minimum does not exceed the maximum', z3.ULE(total(cx, least), cx.res)))
        return out
    return ens


def fold(fn, member, fo, text, least=None, cls=None):
    fs = [fo] if least is None else [least, fo]
    c = cls or fn.rsplit('::', 1)[0]
    return Contract(fn, requires=fold_pre(member), ensures=sum_ens(fo, text, least), modifies=[], setup=set_this, loops=F.loops(fs, c, order_fact), callable=False)


# ------------------------------------------------------------------ fields without members
def var(t):
    return Or(t == 8, t == 9)


def num_min(cx):
    t, l = cx.old('m_state.m_type'), cx.old('m_state.m_length')
    return [('one octet for a variable length type, else the length', cx.res == z3.If(var(t), c64(1), l))]


def len_ens(cx):
    return [('the length', cx.res == cx.old('m_state.m_length'))]


def base_max(cx):
    return [('the maximum is the minimum unless overridden', cx.res == lo(cx.ident(cx.args['this'])))]


def has_pre(cls):
    def req(cx):
        for m in ('m_state.m_extPrefixField', 'm_prefixField'):
            both(cx, m)
        a, b = [Not(bl(cx.old(m).nul)) for m in ('m_state.m_extPrefixField', 'm_prefixField')]
        return [('a prefix is either defined inside or elsewhere', Not(And(a, b)))]
    return req


def both(cx, m):
    p = cx.old(m)
    return p


def part(cx, ext, own):
    """(there is one, minimal and maximal length, kind, largest value) of a field defined inside or elsewhere"""
    eng, st = cx.eng, cx.st0
    a, b = cx.old(ext), cx.old(own)
    ha, hb = Not(bl(a.nul)), Not(bl(b.nul))
    pa, pb = Ptr(a.obj, a.off), Ptr(b.obj, b.off)
    ia, ib = eng.ident_of(st, pa), eng.ident_of(st, pb)
    for i in (ia, ib):
        cx.st1.assume(ordered(i))
    kind = z3.Function('obs_field_kind', ObjS, z3.BitVecSort(32))
    mv = lambda p: V(eng, st, p, N + 'ParseIntFieldImpl', cx.mod)('m_state.m_maxValue')
    pick = lambda x, y: z3.If(ha, x, y)
    return Or(ha, hb), pick(lo(ia), lo(ib)), pick(hi(ia), hi(ib)), pick(kind(ia), kind(ib)), pick(mv(pa), mv(pb))


INT = 0


def text_len(cx, zero=None):
    l = cx.old('m_state.m_length')
    l = z3.ZeroExt(32, l) if l.size() == 32 else l
    has, pmin, pmax, kind, mv = part(cx, 'm_state.m_extPrefixField', 'm_prefixField')
    mn = z3.If(l != 0, l, z3.If(zero if zero is not None else z3.BoolVal(False), c64(1), z3.If(has, pmin, c64(0))))
    mx = z3.If(l != 0, l, z3.If(And(has, kind == INT), sat_add(pmax, mv), SAT))
    return mn, mx


def str_zero(cx):
    return cx.old('m_state.m_haxZeroSuffix')


def text_min(zero):
    def ens(cx):
        return [('the fixed length, else the terminator, else the prefix', cx.res == text_len(cx, zero(cx) if zero else None)[0])]
    return ens


def text_max(zero):
    def ens(cx):
        mn, mx = text_len(cx, zero(cx) if zero else None)
        out = [('the fixed length, else the prefix and as much as it can tell, else unlimited', cx.res == mx)]
        return out + [('the minimum does not exceed the maximum', z3.ULE(mn, cx.res))]
    return ens


def one_way(cx, zero=True):
    """at most one way of telling the size (C19)"""
    l = cx.old('m_state.m_length') != 0
    a, b = [Not(bl(cx.old(m).nul)) for m in ('m_state.m_extPrefixField', 'm_prefixField')]
    out = [('a prefix is either defined inside or elsewhere', Not(And(a, b)))]
    if zero:
        out.append(('a zero terminated text has no prefix', Not(And(Or(a, b), str_zero(cx)))))
    return out


LP = ['m_state.m_ext%sField', 'm_%sField']
PARTS = {k: ('m_state.m_ext%sField' % k, 'm_%sField' % (k[0].lower() + k[1:])) for k in ('Element', 'CountPrefix', 'LengthPrefix', 'ElemLengthPrefix', 'TermSuffix')}


def list_pre(cx):
    out = [('a %s is either defined inside or elsewhere' % k, Not(And(*[Not(bl(cx.old(m).nul)) for m in v]))) for k, v in PARTS.items()]
    out.append(('the list has an element', Or(*[Not(bl(cx.old(m).nul)) for m in PARTS['Element']])))
    sizes = [cx.old('m_state.m_count') != 0] + [Or(*[Not(bl(cx.old(m).nul)) for m in PARTS[k]]) for k in ('CountPrefix', 'LengthPrefix', 'TermSuffix')]
    for i in range(4):
        for j in range(i):
            out.append(('at most one way of telling the size (C19)', Not(And(sizes[i], sizes[j]))))
    return out


def list_len(cx):
    c = cx.old('m_state.m_count')
    c = z3.ZeroExt(32, c) if c.size() == 32 else c
    P = {k: part(cx, *v) for k, v in PARTS.items()}
    fx = cx.old('m_state.m_elemFixedLength')
    hasE, emin, emax = P['ElemLengthPrefix'][:3]
    xmin, xmax = z3.If(hasE, emin, c64(0)), z3.If(hasE, emax, c64(0))
    mul = PROD
    ext = lambda x, n: z3.If(fx, x, mul(x, n))
    mn = z3.If(c != 0, sat_add(mul(P['Element'][1], c), ext(xmin, c)), z3.If(P['CountPrefix'][0], P['CountPrefix'][1], z3.If(P['LengthPrefix'][0], P['LengthPrefix'][1], z3.If(P['TermSuffix'][0], P['TermSuffix'][1], c64(0)))))
    cn = P['CountPrefix'][4]
    mx = z3.If(c != 0, sat_add(mul(P['Element'][2], c), ext(xmax, c)),
               z3.If(P['CountPrefix'][0], z3.If(P['CountPrefix'][3] == INT, sat_add(sat_add(mul(P['Element'][2], cn), P['CountPrefix'][2]), ext(xmax, cn)), SAT),
                     z3.If(And(P['LengthPrefix'][0], P['LengthPrefix'][3] == INT), sat_add(P['LengthPrefix'][2], P['LengthPrefix'][4]), SAT)))
    def below(a, b, c):     # products are monotone (a lemma of parseMulLength)
        cx.st1.assume(Implies(z3.ULE(a, b), z3.ULE(PROD(a, c), PROD(b, c))))
    below(P['Element'][1], P['Element'][2], c)
    below(xmin, xmax, c)
    return mn, mx


def list_min(cx):
    return [('the fixed number of elements, else what tells the size', cx.res == list_len(cx)[0])]


def list_max(cx):
    mn, mx = list_len(cx)
    return [('all the elements and what tells the size, else unlimited', cx.res == mx), ('the minimum does not exceed the maximum', z3.ULE(mn, cx.res))]


def target(cls, member):
    def req(cx):
        return [('the field is defined', Not(bl(cx.old(member).nul)))]
    return req


def same_as(member, f, which):
    def ens(cx):
        p = cx.old(member)
        i = cx.eng.ident_of(cx.st0, Ptr(p.obj, p.off))
        cx.st1.assume(ordered(i))
        return [('the %s of the field' % which, cx.res == f(i))]
    return ens


def opt_max(cx):
    _, _, mx, _, _ = part(cx, 'm_state.m_extField', 'm_field')
    return [('the maximum of the field', cx.res == mx)]


def opt_pre(cx):
    a, b = [Not(bl(cx.old(m).nul)) for m in ('m_state.m_extField', 'm_field')]
    return [('the field is defined either inside or elsewhere', And(Or(a, b), Not(And(a, b))))]


def zero_ens(cx):
    return [('nothing at least', cx.res == 0)]


def add_ens(cx):
    a, b = bv(cx.arg(0), 64), cx.deref(1, 'std::size_t', False)
    return [('the sum, saturating at the unlimited length', cx.deref(1, 'std::size_t') == sat_add(a, b))]


def mul_ens(cx):
    a, b = bv(cx.arg(0), 64), bv(cx.arg(1), 64)
    return [('the product, saturating at the unlimited length', cx.res == PROD(a, b))] + F.product_lemmas()


PROD = z3.Function('saturated_product', B64, B64, B64)


def mul_pre(cx):
    a, b = bv(cx.arg(0), 64), bv(cx.arg(1), 64)
    cx.st0.assume(PROD(a, b) == F.sat_mul(a, b))
    return []


def unlimited(cx):
    return [('the unlimited length', cx.res == SAT)]


def virt(n, pure):
    return Contract('virtual ' + FLD + '::' + n, cls=FLD, pure=pure, trusted=True, note='the length of a member: every override is under contract here (induction over the nesting)')


def contracts():
    C = N + 'common::'
    K = lambda k: N + 'Parse%sFieldImpl::' % k
    mk = lambda fn, req, ens, **kw: Contract(fn, requires=req, ensures=ens, modifies=[], setup=set_this, callable=False, **kw)
    out = [virt('parseMinLengthImpl', 'field_minlen'), virt('parseMaxLengthImpl', 'field_maxlen'), Contract('virtual ' + N + 'ParseIntFieldImpl::parseMaxLengthImpl', cls=N + 'ParseIntFieldImpl', pure='field_maxlen', trusted=True, note='as the length of a member'), virt('parseBitLengthImpl', 'field_bitlen'),
           Contract(C + 'parseAddToLength', ensures=add_ens, modifies=[(1, 'std::size_t')]),
           Contract(C + 'parseMulLength', requires=mul_pre, ensures=mul_ens, modifies=[]),
           Contract(C + 'parseMaxPossibleLength', ensures=unlimited, modifies=[]),
           mk(K('Bundle') + 'parseMinLengthImpl', fold_pre('m_members'), sum_ens(MIN_B, 'the sum of the minima of the members'), loops=F.loops([MIN_B], N + 'ParseBundleFieldImpl')),
           mk(K('Bundle') + 'parseMaxLengthImpl', fold_pre('m_members'), sum_ens(MAX_B, 'the sum of the maxima of the members, unlimited when one of them tells the length', MIN_B), loops=F.loops([MIN_B, MAX_B], N + 'ParseBundleFieldImpl', order_fact)),
           mk(K('Variant') + 'parseMinLengthImpl', None, zero_ens),
           mk(K('Variant') + 'parseMaxLengthImpl', fold_pre('m_members'), sum_ens(MAX_V, 'the largest maximum of the members'), loops=F.loops([MAX_V], N + 'ParseVariantFieldImpl')),
           mk(K('Bitfield') + 'parseMinLengthImpl', fold_pre('m_members'), lambda cx: [('the bits of the members, in octets', cx.res == z3.UDiv(total(cx, BITS), c64(8)))], loops=F.loops([BITS], N + 'ParseBitfieldFieldImpl')),
           mk(N + 'ParseMessageImpl::parseMinLength', fold_pre('m_state.m_fields'), sum_ens(MIN_M, 'the sum of the minima of the fields that exist from the beginning'), loops=F.loops([MIN_M], N + 'ParseMessageImpl')),
           mk(N + 'ParseMessageImpl::parseMaxLength', fold_pre('m_state.m_fields'), sum_ens(MAX_M, 'the sum of the maxima of the fields', MIN_M), loops=F.loops([MIN_M, MAX_M], N + 'ParseMessageImpl', order_fact)),
           mk(K('Optional') + 'parseMinLengthImpl', None, zero_ens),
           mk(K('Optional') + 'parseMaxLengthImpl', opt_pre, opt_max),
           mk(K('Ref') + 'parseMinLengthImpl', target('Ref', 'm_field'), same_as('m_field', lo, 'minimum')),
           mk(K('Ref') + 'parseMaxLengthImpl', target('Ref', 'm_field'), same_as('m_field', hi, 'maximum')),
           mk(K('String') + 'parseMinLengthImpl', one_way, text_min(str_zero)), mk(K('String') + 'parseMaxLengthImpl', one_way, text_max(str_zero)),
           mk(K('Data') + 'parseMinLengthImpl', lambda cx: one_way(cx, False), text_min(None)), mk(K('Data') + 'parseMaxLengthImpl', lambda cx: one_way(cx, False), text_max(None)),
           mk(K('List') + 'parseMinLengthImpl', list_pre, list_min, budget=90), mk(K('List') + 'parseMaxLengthImpl', list_pre, list_max, weight=5, budget=90),
           mk(FLD + '::parseMaxLengthImpl', None, base_max)]
    for k in ('Int', 'Enum'):
        out += [mk(K(k) + 'parseMinLengthImpl', None, num_min), mk(K(k) + 'parseMaxLengthImpl', None, len_ens)]
    for k in ('Set', 'Float'):
        out.append(mk(K(k) + 'parseMinLengthImpl', None, len_ens))
    return out


# ------------------------------------------------------------------ the real parser over generated field trees
KINDS = ['int', 'enum', 'set', 'float', 'bitfield', 'bundle', 'string', 'data', 'list', 'ref', 'optional', 'variant']
FIX = {'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8}
M = 2**64 - 1
BIG = '<data name="huge" length="0xfffffffe"/><list name="huger" count="0xffffffff"><ref field="huge"/></list><list name="hugest" count="0xfffffffe"><ref field="huger"/></list><list name="most" count="0xffffffff"><ref field="huger"/></list>'
AUX = '<int name="n8" type="uint8"/><int name="n64" type="uint64"/><int name="n16" type="uint16"/><string name="s5" length="5"/><data name="d"/><int name="ln" type="uint16" semanticType="length"/>' + BIG
REFS = ['n8', 'n64', 'n16', 's5', 'd', 'huge', 'huger', 'hugest', 'most']


class Gen:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def name(self):
        self.n += 1
        return 'm%d' % self.n

    def num(self, tag='int', types=None, name=True, **a):
        r = self.rng
        t = r.choice(types or list(FIX) + ['intvar', 'uintvar'])
        d = dict(name=self.name()) if name else {}
        d['type'] = t
        if t in FIX:
            if r.random() < 0.3 and FIX[t] > 1:
                d['length'] = r.randint(1, FIX[t])
        elif r.random() < 0.6:
            d['length'] = r.randint(1, 9)
        d.update(a)
        return el(tag, d, '<validValue name="V" val="1"/>' if tag == 'enum' else '')

    def prefix(self):
        r = self.rng.random()
        if r < 0.7:
            a = {}
            if self.rng.random() < 0.2:
                a['serOffset'] = self.rng.randint(0, 20)
            return self.num(types=['uint8', 'uint16', 'uint32', 'uint64', 'uintvar', 'int16', 'int64'], **a)
        if r < 0.85:
            return el('ref', dict(name=self.name(), field='ln'))
        return el('bitfield', dict(name=self.name(), semanticType='length'), el('int', dict(name='b1', type='uint8', bitLength=4, semanticType='length')) + el('int', dict(name='b2', type='uint8', bitLength=4)))

    def since(self, ver):
        r = self.rng
        d = {}
        if ver and r.random() < 0.3:
            d['sinceVersion'] = r.randint(1, 5)
            if r.random() < 0.2:
                d['deprecated'] = r.randint(d['sinceVersion'] + 1, 6)
        return d

    def field(self, depth, ver=False, sem=0.0):
        r = self.rng
        a = dict(name=self.name(), **self.since(ver))
        if sem and r.random() < sem:
            a['semanticType'] = 'length'
        k = r.choice(KINDS if depth > 0 else KINDS[:5] + ['string', 'data', 'ref'])
        if k == 'int' or k == 'enum':
            return self.num(k, **a)
        a.pop('semanticType', 0) if k not in ('bitfield', 'bundle', 'ref') else None
        if k == 'set':
            return el('set', dict(a, length=r.randint(1, 8)), '<bit name="b" idx="0"/>')
        if k == 'float':
            return el('float', dict(a, type=r.choice(['float', 'double'])))
        if k == 'bitfield':
            a.pop('semanticType', 0)
            left, out = 8 * r.randint(1, 8), ''
            while left:
                b = min(left, r.randint(1, 16))
                out += el('int', dict(name=self.name(), type='uint16', bitLength=b))
                left -= b
            return el('bitfield', a, out)
        if k == 'bundle':
            return el('bundle', a, el('members', {}, self.members(depth)))
        if k == 'variant':
            return el('variant', a, el('members', {}, self.members(depth)))
        if k in ('string', 'data'):
            x, b = r.random(), ''
            if x < 0.25:
                a['length'] = r.choice([1, 2, 7, 1000, 2**32 - 1])
            elif x < 0.4 and k == 'string':
                a['zeroTermSuffix'] = 'true'
            elif x < 0.75:
                b = el('lengthPrefix', {}, self.prefix())
            elif x < 0.85:
                a['lengthPrefix'] = r.choice(['n8', 'n64', 'ln'])
            return el(k, a, b)
        if k == 'ref':
            return el('ref', dict(a, field=r.choice(REFS)))
        if k == 'optional':
            if r.random() < 0.5:
                return el('optional', dict(a, defaultMode=r.choice(['tentative', 'missing', 'exists'])), el('field', {}, self.field(depth - 1)))
            return el('optional', dict(a, field=r.choice(REFS)))
        b = el('element', {}, self.field(depth - 1))
        if r.random() < 0.3:
            a['element'], b = r.choice(REFS), ''
        x = r.random()
        if x < 0.3:
            a['count'] = r.choice([1, 2, 3, 255, 2**31, 2**32 - 1])
        elif x < 0.6:
            b += el('countPrefix', {}, self.prefix())
        elif x < 0.75:
            b += el('lengthPrefix', {}, self.prefix())
        elif x < 0.85:
            b += el('termSuffix', {}, self.num(types=list(FIX)))
        if x < 0.75 and r.random() < 0.4:
            b += el('elemLengthPrefix', {}, self.prefix())
            if r.random() < 0.4:
                a['elemFixedLength'] = 'true'
        return el('list', a, b)

    def members(self, depth):
        return ''.join(self.field(depth - 1, sem=0.08) for _ in range(self.rng.randint(1, 4)))


def cases(rng, tier):
    # products next to the unlimited length
    for c1, c2, c3 in [(0xffffffff, 0xffffffff, 1), (0xffffffff, 0xffffffff, 2), (0xfffffffe, 0xffffffff, 2), (65537, 0xffffffff, 65535), (65537, 0xffffffff, 65536), (3, 5, 0xffffffff), (641, 6700417, 0xffffffff), (641, 6700417, 0xfffffffe),
                       (0x80000000, 0x80000000, 3), (0x80000000, 0x80000000, 4), (0x80000000, 0x40000000, 8), (0x80000000, 0x40000000, 7)]:
        yield ('S', schema(AUX + '<data name="d1" length="%d"/><list name="l2" element="d1" count="%d"/><list name="l3" element="l2" count="%d"/><list name="l4" element="l3" count="2"/>' % (c1, c2, c3) +
                           '<bundle name="b"><members><ref name="x" field="l3"/><ref name="y" field="l3"/></members></bundle>', '<message name="M" id="1"><fields><ref name="x" field="l3"/><ref name="y" field="l3"/></fields></message>'), 'big')
    for _ in range(1500 if tier == 'quick' else 20000):
        g = Gen(rng)
        fs = ''.join(g.field(rng.randint(1, 3)) for _ in range(rng.randint(1, 3)))
        ms = ''
        for i in range(rng.randint(0, 2)):
            v = rng.randint(1, 4) if rng.random() < 0.4 else 0
            b = ''.join(g.field(1, True) for _ in range(rng.randint(1, 5)))
            ms += el('message', dict(name='M%d' % i, id=i + 1, **(dict(sinceVersion=v) if v else {})), el('fields', {}, b))
        yield ('S', schema(AUX + fs, ms, version=7), 'tree')


def sadd(*a):
    return min(sum(a), M)


def pfx(p):
    """unlimited unless the prefix is an integer"""
    return int(p['max']) % 2**64 if p['kind'] == 0 else None


def bounds(f):
    """[(minimum, maximum)] from the definition and the lengths of the parts, None when the definition does not tell"""
    k = KINDS[f['kind']]
    L = lambda x: (int(x['minlen']), int(x['maxlen']))
    parts = [L(x) for x in f.get('members', [])]
    if k == 'bitfield':
        n = sum(int(x['bitlen']) for x in f['members'])
        return (n // 8, n // 8)
    if k == 'bundle':
        return sadd(*[p[0] for p in parts]), M if any(x['sem'] == LENGTH for x in f['members']) else sadd(*[p[1] for p in parts])
    if k == 'variant':
        return 0, max(p[1] for p in parts)
    if k == 'ref':
        return L(f['to'])
    if k == 'optional':
        return 0, L(f['to'])[1]
    if k in ('string', 'data'):
        n = int(f['fixed'])
        if n:
            return n, n
        if f.get('zts'):
            return 1, M
        if f['lp']:
            v = pfx(f['lp'])
            return L(f['lp'])[0], M if v is None else sadd(L(f['lp'])[1], v)
        return 0, M
    if k == 'list':
        e = L(f['elem'])
        x = L(f['ep']) if f['ep'] else (0, 0)
        n = int(f['fixed'])
        m = lambda a, b: min(a * b, M)
        if n:
            q = 1 if f['efl'] else n
            return sadd(m(e[0], n), m(x[0], q)), sadd(m(e[1], n), m(x[1], q))
        if f['cp']:
            v = pfx(f['cp'])
            return L(f['cp'])[0], M if v is None else sadd(m(e[1], v), L(f['cp'])[1], m(x[1], 1 if f['efl'] else v))
        if f['lp']:
            v = pfx(f['lp'])
            return L(f['lp'])[0], M if v is None else sadd(L(f['lp'])[1], v)
        return (L(f['ts'])[0] if f['ts'] else 0), M
    if k in ('set', 'float'):
        return int(f['minlen']), int(f['minlen'])
    if f.get('type') in (8, 9):
        return 1, int(f['maxlen'])
    return int(f['maxlen']), int(f['maxlen'])


def fields_in(x):
    if isinstance(x, dict):
        if 'kind' in x and 'minlen' in x:
            yield x
        for k, v in x.items():
            if k in ('members', 'lp', 'cp', 'ep', 'ts', 'elem', 'to', 'fields', 'ns', 'schemas', 'msgs', 'ifaces') and not (k == 'to' and x.get('kind') == 9):
                yield from fields_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from fields_in(v)


def judge(c, o):
    if not isinstance(o, dict) or 'crash' in o or not o.get('valid'):
        return None
    for f in fields_in(o['schemas']):
        a, b = int(f['minlen']), int(f['maxlen'])
        if a > b:
            return ('inverted', 'the minimal length %d of field %s is above the maximal length %d' % (a, f['name'], b))
        w = bounds(f)
        if f.get('bitlen', '0') == '0' and w != (a, b):
            return (KINDS[f['kind']], 'the lengths of the %s field %s are %d..%d, its parts give %d..%d' % (KINDS[f['kind']], f['name'], a, b, w[0], w[1]))
    for n in o['schemas'][0]['ns']:
        for m in n['msgs']:
            a, b = int(m['minlen']), int(m['maxlen'])
            w = (sadd(*[int(f['minlen']) for f in m['fields'] if int(f['since']) <= int(m['since'])]), sadd(*[int(f['maxlen']) for f in m['fields']]))
            if w != (a, b):
                return ('message', 'the lengths of message %s are %d..%d, its fields give %d..%d' % (m['name'], a, b, w[0], w[1]))
    return None


FN_BUDGET = 240
BOUND = 'lengths of 1500 (20000) random schemas with nested fields of every kind and products next to the unlimited length, compared with what the reported parts give'
ASSUME = ['the lengths of members are read through their virtual functions, each of which is under contract here (induction over the nesting)',
          'a field is not both defined inside and elsewhere, and at most one way of telling a size is used (C19)', 'fewer than 2^40 members']
