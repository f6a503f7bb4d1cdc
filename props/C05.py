"""C05: set bits are in range, named uniquely and defined consistently."""
import z3
from irv.contract import Contract, V
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, ObjS, StrS, Forall
from irv import stl, base as B
from irv.xml import schema, el, TYPES
from props import intspec as S, nodespec as X, textspec as TX

N = 'commsdsl::parse::'
E = N + 'ParseSetFieldImpl::'
CLS = N + 'ParseSetFieldImpl'
INFO = N + 'ParseSetField::ParseBitInfo'
SRCS = ['parse/ParseSetFieldImpl.cpp', 'parse/ParseIntFieldImpl.cpp']
LAYOUT_SRCS = ['parse/ParseSetFieldImpl.cpp']
B64 = z3.BitVecSort(64)
c64 = lambda x: z3.BitVecVal(x, 64)
c32 = lambda x: z3.BitVecVal(x, 32)

# ------------------------------------------------------------------ values of a bit: a boolean or a reference to one
refbool_ok = z3.Function('spec_refbool_ok', ObjS, StrS, z3.BoolSort())
refbool_v = z3.Function('spec_refbool', ObjS, StrS, z3.BoolSort())


def ap_bool(eng, st, args, ins, mod, name):
    """the boolean another definition stands for (a function of the protocol and the text); written on success"""
    from irv.llparse import INT
    i, s = eng.ident_of(st, args[0]), stl.get_str(eng, st, args[1]).z()
    ok = refbool_ok(i, s)
    old = bl(eng.load(st, args[3], INT(1), mod))
    eng.store(st, args[3], z3.If(ok, refbool_v(i, s), old), INT(1), mod)
    return [(st, 'ret', ok)]


def bool_value(eng, st, prot, s):
    """(accepted, value) of the text of a bit value"""
    lit = B.bool_ok(s)
    return Or(lit, And(S_refs(prot), refbool_ok(prot, s))), z3.If(lit, B.bool_v(s), refbool_v(prot, s))


def S_refs(prot):
    """references to values are available (since 4)"""
    return z3.Function('obs_value_refs', ObjS, z3.BoolSort())(prot)


def ap_refs(eng, st, args, ins, mod, name):
    return [(st, 'ret', S_refs(eng.ident_of(st, args[0])))]


def str_ens(cx):
    ok, v = bool_value(cx.eng, cx.st1, cx.eng.ident_of(cx.st1, cx.old('m_protocol')), cx.str_arg(0).z())
    return [('accepted exactly for a boolean or a reference to one', cx.res == ok), ('the value is the one denoted', Implies(cx.res, cx.deref(1, 'bool') == v))]


def flag_ens(prop, member):
    def ens(cx):
        c = S.prop(cx, prop)
        ok, v = bool_value(cx.eng, cx.st1, cx.eng.ident_of(cx.st1, cx.old('m_protocol')), S.prop_str(cx, prop))
        return [('accepted exactly when not given, or given once as a boolean', cx.res == And(z3.ULE(c, 1), Implies(c == 1, ok))),
                ('the value is the written one, unchanged when not written', Implies(cx.res, S.M(cx, member, True) == z3.If(c == 1, v, S.M(cx, member)))), S.rejected_reports(cx)]
    return ens


# ------------------------------------------------------------------ length
def covers(eng, st, q, b):
    """every bit of the index view is below b"""
    if isinstance(q.v.n, int) and q.v.n == 0:
        return z3.BoolVal(True)
    i = st.obj(q.v.store).ident
    r = z3.Function('spec_covers', ObjS, B64, B64, z3.BoolSort())(i, q.n, b)
    w = z3.Function('wit_covers', ObjS, B64, B64, B64)(i, q.n, b)
    ok = lambda x: z3.ULT(z3.ZeroExt(32, bv(q[x][0], 32)), b)
    st.assume(Or(r, And(z3.ULT(w, q.n), Not(ok(w)))))
    v = z3.FreshConst(B64, 'bi')
    st.foralls.append(Forall(0, q.n, v, Implies(r, ok(v)), [], q.v.store))
    stl.inst(st, q.v.store, w)
    return r


def type_ens(cx):
    t0, t1 = S.M(cx, 'm_type'), S.M(cx, 'm_type', True)
    c = S.prop(cx, 'type')
    t = S.type_of(S.prop_str(cx, 'type'))
    return [('accepted exactly when not given, or an unsigned type is given once, unchanged by reuse', cx.res == And(z3.ULE(c, 1), Implies(c == 1, And(t != 10, S.is_uns(t), Or(t0 == 10, t == t0))))),
            ('the type is the written or the inherited one', Implies(cx.res, t1 == z3.If(c == 1, t, t0))), S.rejected_reports(cx)]


def len_pre(cx):
    t, l, b = [S.M(cx, m) for m in ('m_type', 'm_length', 'm_bitLength')]
    return B.node_ok(cx) + [('the type is known or open', Or(t == 10, And(z3.ULT(t, 10), S.is_uns(t)))),
                            ('inherited length and bits belong to a type', And(Implies(t == 10, And(l == 0, b == 0)), Implies(t != 10, z3.ULE(l, S.max_len(t))), (l == 0) == (b == 0), z3.ULE(b, 8 * l)))]


def len_spec(cx):
    t, l, b = [S.M(cx, m) for m in ('m_type', 'm_length', 'm_bitLength')]
    inb = S.in_bitfield(cx)
    open_ = t == 10
    cl, cb = S.prop(cx, 'length'), S.prop(cx, 'bitLength')
    gl, gb = S.given(cx, 'length'), S.given(cx, 'bitLength')
    sl, sb = S.prop_str(cx, 'length'), S.prop_str(cx, 'bitLength')
    nl, nb = B.num_u(sl, S.B10), B.num_u(sb, S.B10)
    top = z3.If(open_, c64(8), S.max_len(t))
    okl = And(z3.ULE(cl, 1), Implies(gl, And(B.num_u_ok(sl, S.B10), nl != 0, z3.ULE(nl, top), Or(l == 0, l == nl))))
    l1 = z3.If(gl, nl, z3.If(And(l == 0, Not(open_)), top, l))
    okl = And(okl, Or(l1 != 0, inb))
    b1 = z3.If(And(gb, inb), nb, z3.If(Or(gb, b == 0), 8 * l1, b))
    okb = And(z3.ULE(cb, 1), b1 != 0, Implies(And(gb, inb), And(B.num_u_ok(sb, S.B10), z3.ULE(nb, 8 * z3.If(l1 == 0, top, l1)))))
    l2 = z3.If(l1 == 0, z3.UDiv(b1 - 1, c64(8)) + 1, l1)
    q = S.M(cx, 'm_revBits')
    ok = And(okl, okb, covers(cx.eng, cx.st1, q, b1))
    t2 = z3.If(open_, z3.If(l2 == 1, c32(1), z3.If(l2 == 2, c32(3), z3.If(z3.ULE(l2, 4), c32(5), c32(7)))), t)
    return ok, l2, b1, t2


def len_ens(cx):
    ok, l2, b1, t2 = len_spec(cx)
    l, b, t = [S.M(cx, m, True) for m in ('m_length', 'm_bitLength', 'm_type')]
    q = S.M(cx, 'm_revBits', True)
    return [('accepted exactly when the length fits the type, the bits fit the length and the inherited bits fit the bits', cx.res == ok),
            ('the length is the written one, the inherited one, the one of the type, or the one the bits need', Implies(cx.res, l == l2)),
            ('the bits are the written ones for a bitfield member, else all of them', Implies(cx.res, b == b1)),
            ('the type has the length', Implies(cx.res, And(t == t2, z3.ULE(l, S.max_len(t))))),
            ('the bits fit the length', Implies(cx.res, And(b != 0, z3.ULE(b, 8 * l)))),
            ('every bit is below the bit length', Implies(cx.res, covers(cx.eng, cx.st1, q, b))),
            S.rejected_reports(cx)]


# ------------------------------------------------------------------ permission for equal indices
distinct = z3.Function('spec_distinct_idx', ObjS, B64, z3.BoolSort())


def is_distinct(st, q):
    return z3.BoolVal(True) if isinstance(q.v.n, int) and q.v.n == 0 else distinct(st.obj(q.v.store).ident, bv(q.n, 64))


def ap_unique(eng, st, args, ins, mod, name):
    return [(st, 'ret', is_distinct(st, V(eng, st, args[0], CLS, mod)('m_state.m_revBits')))]


def non_pre(cx):
    return B.node_ok(cx) + [('equal indices only where allowed', Or(is_distinct(cx.st0, S.M(cx, 'm_revBits')), S.M(cx, 'm_nonUniqueAllowed')))]


def non_ens(cx):
    from props import C14
    s, c = S.prop_str(cx, 'nonUniqueAllowed'), S.prop(cx, 'nonUniqueAllowed')
    f0, f1 = S.M(cx, 'm_nonUniqueAllowed'), S.M(cx, 'm_nonUniqueAllowed', True)
    uniq = is_distinct(cx.st1, S.M(cx, 'm_revBits'))
    sup = S.supported(cx, C14.prop_since(SV('nonUniqueAllowed').z()))
    return [('equal indices of a reused set stay allowed', Implies(cx.res, Or(uniq, f1))), ('accepted only when given at most once, as a boolean', Implies(cx.res, And(z3.ULE(c, 1), Implies(And(c != 0, sup), B.bool_ok(s))))),
            ('the permission is the written one, unchanged when not written', Implies(cx.res, f1 == z3.If(S.given(cx, 'nonUniqueAllowed'), And(sup, B.bool_v(s)), f0))), S.rejected_reports(cx)]


# ------------------------------------------------------------------ the bits
VIEWS = ('m_state.m_bits', 'm_state.m_revBits')


def this_view(eng, st, c):
    return V(eng, st, eng.this_of_run, CLS, c.mod)


def pair(st, name, idx, which):
    pend = st.g.pop('gh:pair', None)
    if pend is None:
        st.g['gh:pair'] = (which, name, idx)
        return []
    if pend[0] == which:
        return [('the two views of the bits are extended together', False)]
    return [('the index-to-name view gets the pair of the name-to-bit view', And(pend[1] == name, pend[2] == idx))]


def free(eng, st, me, idx, c):
    return ('no other bit has the index unless allowed', Or(me('m_state.m_nonUniqueAllowed'), Not(bl(stl.present(eng, st, me('m_state.m_revBits').v, 'unsigned int', idx, c.mod)))))


def ins_bit(eng, st, c, m, key, src):
    me = this_view(eng, st, c)
    i = V(eng, st, src, INFO, c.mod)
    nm = key.z()
    node = st.g['gh:node']
    txt = lambda k: X.text_of(eng, st, node, k, c.mod)
    given = lambda k: And(X.count_of(node, k) != 0, bv(eng.str_len(st, SV(txt(k))), 64) != 0)
    prot = eng.ident_of(st, me('m_protocol'))
    num = txt('idx')
    idx = i('m_idx')

    def val(k, dflt):
        ok, v = bool_value(eng, st, prot, txt(k))
        return And(Implies(given(k), ok), i('m_' + k) == z3.If(given(k), v, dflt))
    out = [('the versions are in order', z3.ULT(i('m_sinceVersion'), i('m_deprecatedSince'))), ('the name is valid', B.name_ok(nm)), ('the name is the written one', nm == txt('name')),
           ('the index is the written one', And(B.num_n_ok(num, S.B10), idx == B.num_n(num, S.B10))),
           ('the index is below the bit length', z3.ULT(z3.ZeroExt(32, idx), me('m_state.m_bitLength'))),
           ('no other bit has the name', Not(bl(stl.present(eng, st, me('m_state.m_bits').v, 'std::string', key, c.mod)))),
           ('the default is the written one, else the one of unnamed bits', val('defaultValue', me('m_state.m_defaultBitValue'))),
           ('the reserved value is the written one, else the one of unnamed bits', val('reservedValue', me('m_state.m_reservedBitValue'))),
           ('the bit is reserved when written so', val('reserved', z3.BoolVal(False)))]
    if (st.g.get('gh:pair') or (None,))[0] != 'rev':
        out.append(free(eng, st, me, idx, c))
    return out + pair(st, nm, idx, 'bits')


def ins_rev(eng, st, c, m, key, src):
    me = this_view(eng, st, c)
    out = []
    if (st.g.get('gh:pair') or (None,))[0] != 'bits':
        out.append(free(eng, st, me, bv(key, 32), c))
    return out + pair(st, stl.get_str(eng, st, src).z(), bv(key, 32), 'rev')


def each_bit(lp, s2):
    a, b = [V(lp.eng, x, lp.eng.this_of_run, CLS, lp.fn.mod) for x in (lp.sh, s2)]
    return [('an accepted bit is one more of the set, in both views', And(s2.g.get('gh:pair') is None, *[b(m).n == a(m).n + 1 for m in VIEWS]))]


GROW = X.growing(CLS, VIEWS, each_bit)


class Consistent:
    """the loop over the bits of one index: every name of the index view is a bit whose versions are in order (each insertion establishes both)"""

    def bounds(self, lp):
        """ends the iterator does not pass"""
        out = []
        for (oid, ck, store, i0, t) in lp.iters:
            for i, o in lp.st.mem.items():
                if o.kind != 'local':
                    continue
                for k, (sz, p) in o.cells.items():
                    if isinstance(p, Ptr) and p.obj == store and (i, k) not in lp.hav and p.term is not None:
                        e = bv(lp.eng.pindex(lp.st, p), 64)
                        if not any(e.eq(x[1]) and x[0] == oid for x in out) and lp.eng.must(lp.st, z3.ULE(bv(i0, 64), e)):
                            out.append((oid, e, ck, bv(i0, 64), t))
        return [x for x in out if not x[1].eq(x[3])]

    def assume(self, lp):
        eng, st, mod = lp.eng, lp.sh, lp.fn.mod
        for (oid, e, ck, i0, t) in self.bounds(lp):
            st.assume(z3.ULE(t, e))
        me = V(eng, st, eng.this_of_run, CLS, mod)
        b, r = me(VIEWS[0]), me(VIEWS[1])
        if isinstance(b.v.n, int) or isinstance(r.v.n, int):
            return
        v = z3.FreshConst(B64, 'cb')
        k = stl.map_idx(st, b.v.store, stl.get_str(eng, st, r[v][1]().p).z())
        e = b[k][1]()
        st.foralls.append(Forall(0, r.n, v, And(z3.ULT(k, b.n), z3.ULT(e('m_sinceVersion'), e('m_deprecatedSince'))), [], r.v.store))

    def entry(self, lp):
        return [('the iterator starts before the end', z3.ULE(i0, e)) for (oid, e, ck, i0, t) in self.bounds(lp)]

    def preserved(self, lp, s2):
        return [('the iterator does not pass the end', z3.ULE(bv(lp.eng.pindex(s2, s2.obj(oid).cells[ck][1]), 64), e)) for (oid, e, ck, i0, t) in self.bounds(lp)]


def bits_loop(eng, st, fn, blk):
    ls = fn.loops()
    if any(blk in body and h != blk for h, body in ls.items()):
        return Consistent()
    return GROW(eng, st, fn, blk)


def remember_this(eng, st, b, mod):
    eng.this_of_run = b['this']


def bits_pre(cx):
    return B.node_ok(cx) + [('the bit length is known', S.M(cx, 'm_bitLength') != 0)]


def bits_ens(cx):
    return [S.rejected_reports(cx)]


def contracts():
    from props import C01, C14
    helpers = [c for c in C01.contracts() if c.name.rsplit('::', 1)[1] in ('parseMaxTypeLength', 'parseIsTypeUnsigned')]
    st = lambda *m: ['m_state.' + x for x in m]
    return X.contracts() + helpers + [
        B.string_prop(),
        Contract(N + 'ParseProtocolImpl::parseStrToBool', apply_fn=ap_bool, trusted=True, note='C18'),
        Contract(N + 'ParseProtocolImpl::parseIsFieldValueReferenceSupported', apply_fn=ap_refs, trusted=True, note='C14'),
        Contract(N + 'ParseFieldImpl::parseValidateAndUpdateBoolPropValue', ensures=C14.bool_ens, modifies=[(1, 'bool')], trusted=True, note='C14').logs(),
        Contract(E + 'parseIsUnique', apply_fn=ap_unique, trusted=True, note='the indices are distinct: decided by the corpus'),
        Contract(E + 'parseStrToValue', ensures=str_ens, modifies=[(1, 'bool')]).logs(),
        Contract(E + 'parseUpdateDefaultValue', requires=B.node_ok, ensures=flag_ens('defaultValue', 'm_defaultBitValue'), modifies=st('m_defaultBitValue')).logs(),
        Contract(E + 'parseUpdateReservedValue', requires=B.node_ok, ensures=flag_ens('reservedValue', 'm_reservedBitValue'), modifies=st('m_reservedBitValue')).logs(),
        Contract(E + 'parseUpdateType', requires=B.node_ok, ensures=type_ens, modifies=st('m_type')).logs(),
        Contract(E + 'parseUpdateEndian', ensures=S.endian_ens, modifies=st('m_endian')).logs(),
        Contract(E + 'parseUpdateLength', requires=len_pre, ensures=len_ens, modifies=st('m_length', 'm_bitLength', 'm_type'), merge=True).logs(),
        Contract(E + 'parseUpdateNonUniqueAllowed', requires=non_pre, ensures=non_ens, modifies=st('m_nonUniqueAllowed')).logs(),
        Contract(E + 'parseUpdateBits', requires=bits_pre, ensures=bits_ens, modifies=st('m_bits', 'm_revBits'), setup=remember_this,
                 inserts={'m_bits': ins_bit, 'm_revBits': ins_rev}, loops={E + 'parseUpdateBits': bits_loop}, weight=5, merge=True).logs(),
    ]


# ------------------------------------------------------------------ corpus
import re
NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')
AUX = ('<set name="s0" length="1" defaultValue="true"><bit name="A" idx="0" defaultValue="false"/><bit name="B" idx="1"/><bit name="C" idx="2" defaultValue="1"/></set>'
       '<set name="s1" length="2"><bit name="A" idx="3"/></set><int name="n5" type="uint8" defaultValue="1"/>')
REFS = {'s0': True, 's0.A': False, 's0.B': True, 's0.C': True, 's1': False, 's1.A': False}
UNS = ['uint8', 'uint16', 'uint32', 'uint64', 'uintvar']
VER = 6
NYD = 2**32 - 1


def boolean(t):
    t = t.strip(' \t\r\n')
    b = {'true': True, '1': True, 'false': False, '0': False}.get(t.lower())
    return b if b is not None else REFS.get(t)


def define(d, base=None):
    """the set a definition stands for, or None"""
    e = dict(base, bits=list(base['bits'])) if base else dict(t=None, ln=0, bl=0, non=False, db=False, rb=False, bits=[])
    a = d['a']
    inb = d.get('bf')
    if 'type' in a:
        if a['type'] not in UNS or (e['t'] and e['t'] != a['type']):
            return None
        e['t'] = a['type']
    top = S.PLEN[e['t']] if e['t'] else 8
    if 'length' in a:
        n = TX.py_num(a['length'], 1, top)
        if n is None or (e['ln'] and e['ln'] != n):
            return None
        e['ln'] = n
    if not e['ln'] and e['t']:
        e['ln'] = top
    if not e['ln'] and not inb:
        return None
    if inb and 'bitLength' in a:
        n = TX.py_num(a['bitLength'], 1, 8 * (e['ln'] or top))
        if n is None:
            return None
        e['bl'] = n
    elif 'bitLength' in a or not e['bl']:
        e['bl'] = 8 * e['ln']
    if not e['bl']:
        return None
    if any(b['idx'] >= e['bl'] for b in e['bits']):
        return None
    e['ln'] = e['ln'] or (e['bl'] + 7) // 8
    e['t'] = e['t'] or ['uint8', 'uint16', 'uint32', 'uint32', 'uint64', 'uint64', 'uint64', 'uint64'][e['ln'] - 1]
    uniq = lambda: len({b['idx'] for b in e['bits']}) == len(e['bits'])
    if 'nonUniqueAllowed' in a:
        b = {'true': True, '1': True, 'false': False, '0': False}.get(a['nonUniqueAllowed'])
        if b is None or (not b and not uniq()):
            return None
        e['non'] = b
    for k, m in (('defaultValue', 'db'), ('reservedValue', 'rb')):
        if k in a:
            b = boolean(a[k])
            if b is None:
                return None
            e[m] = b
    for w in d['bits']:
        if w.get('name') is None or not NAME.match(w['name']) or w['name'] in [b['name'] for b in e['bits']]:
            return None
        i = TX.py_num(w['idx'], 0, 2**32 - 1) if w.get('idx') is not None else None
        if i is None or i >= e['bl']:
            return None
        if not e['non'] and i in [b['idx'] for b in e['bits']]:
            return None
        b = dict(name=w['name'], idx=i, res=False, **{'def': e['db'], 'resv': e['rb'], 'since': 0, 'depr': NYD})
        for k, m in (('defaultValue', 'def'), ('reserved', 'res'), ('reservedValue', 'resv')):
            if w.get(k):
                v = boolean(w[k])
                if v is None:
                    return None
                b[m] = v
        for k, m in (('sinceVersion', 'since'), ('deprecated', 'depr')):
            if k in w:
                b[m] = int(w[k])
        if b['since'] > VER or (b['depr'] != NYD and b['depr'] > VER) or b['since'] >= b['depr']:
            return None
        if b['res'] and (b['since'] or b['depr'] != NYD):
            return None
        for o in e['bits']:
            if o['idx'] == i and not (o['depr'] <= b['since'] or b['depr'] <= o['since']) and any(o[k] != b[k] for k in ('def', 'res', 'resv')):
                return None
        e['bits'].append(b)
    return e


def text(d, name, reuse=None):
    a = dict(name=name, **d['a'])
    if reuse:
        a['reuse'] = reuse
    body = ''
    for i, w in enumerate(d['bits']):
        w = {k: v for k, v in w.items() if v is not None}
        if d.get('kids', 0) >> i & 1:
            body += el('bit', {}, ''.join(el(k, dict(value=v)) for k, v in w.items()) or ' ')
        else:
            body += el('bit', w)
    return el('set', a, body)


def case(d, base=None):
    f = text(d, 'f', 'base' if base else None)
    if d.get('bf'):
        n = TX.py_num(d['a'].get('bitLength', '8'), 1, 64) or 8
        pad = el('int', dict(name='pad', type='uint8', bitLength=(-n) % 8)) if n % 8 else ''
        f = '<bitfield name="bf">%s%s</bitfield>' % (f, pad)
    return ('S', schema(AUX + (text(base, 'base') if base else '') + f, version=VER), (d, base))


def D(bits, bf=False, kids=0, **a):
    return dict(bits=bits, a=a, bf=bf, kids=kids)


def bit(n, i, **a):
    return dict(name=n, idx=i, **a)


def cases(rng, tier):
    for t in UNS + ['int8', 'int64', 'intvar', 'bogus', None]:
        kt = {} if t is None else dict(type=t)
        yield case(D([bit('a', '0')], **kt))
        for ln in list(range(0, 12)) + ['0x2', '-1', 'x', '']:
            yield case(D([bit('a', '0')], **kt, **(dict(length=str(ln)) if ln != '' else {})))
            n = ln if isinstance(ln, int) else 2
            for i in (8 * n - 1, 8 * n):
                if i >= 0:
                    yield case(D([bit('a', str(i)), bit('b', '1')], **kt, length=str(ln) if ln != '' else '2'))
        for blen in ('1', '7', '8', '9', '15', '16', '17', '23', '32', '33', '40', '48', '63', '64', '65', '0', '-1', 'x'):
            n = TX.py_num(blen, 1, 64) or 8
            for kl in ({}, dict(length='2'), dict(length='8')):
                for i in (n - 1, n):
                    yield case(D([bit('a', str(i))], bf=True, bitLength=blen, **kt, **kl))
            yield case(D([bit('a', '7')], bitLength=blen, length='1', **kt))
    for i in ('0', '7', '8', '9', '0x3', '-1', '4294967295', '4294967296', '4294967303', '18446744073709551615', '18446744073709551616', '1.0', '', 'x', None):
        yield case(D([bit('a', i), bit('b', '2')], length='1'))
        yield case(D([bit('b', '2'), bit('a', i)], length='1', kids=2))
    for n in ('a', 'B1', '_x', '1a', 'a-b', '', 'a b', 'a.b', None, 'z'):
        yield case(D([bit(n, '1'), bit('z', '2')], length='1'))
        yield case(D([bit('z', '2'), bit(n, '1')], length='1', kids=3))
    BV = ['true', 'false', '1', '0', 'TRUE', 'False', 'yes', '', '2', 's0', 's0.A', 's0.B', 's0.C', 's0.D', 's1.A', 's1', 'n5', 'nope']
    for v in BV:
        for k in ('defaultValue', 'reservedValue', 'reserved'):
            yield case(D([bit('a', '0', **{k: v}), bit('b', '1')], length='1'))
            yield case(D([bit('a', '0', **{k: v}), bit('b', '1')], length='1', kids=int(v != ''), reservedValue='1'))
        for k in ('defaultValue', 'reservedValue'):
            if v:
                yield case(D([bit('a', '0'), bit('b', '1', defaultValue='false', reservedValue='false')], length='1', **{k: v}))
                for w in BV[:4]:
                    yield case(D([bit('c', '2')], **{k: w}), D([bit('a', '0'), bit('b', '1', defaultValue='false')], length='1', **{k: v}))
    for non in ('true', 'false', '1', '0', 'bogus', None):
        for rnon in ('true', 'false', '0', None):
            for dup in (True, False):
                kw = {} if non is None else dict(nonUniqueAllowed=non)
                rkw = {} if rnon is None else dict(nonUniqueAllowed=rnon)
                b = D([bit('a', '5'), bit('b', '5' if dup else '6')], length='1', **kw)
                yield case(b)
                for more in ([], [bit('c', '5')], [bit('c', '7')], [bit('a', '1')]):
                    yield case(D(more, **rkw), b)
    vs = [(0, NYD), (0, 2), (0, 3), (2, NYD), (2, 4), (3, NYD), (3, 5), (5, NYD), (5, 7), (4, 4), (7, NYD)]
    kv = lambda v: dict(([('sinceVersion', str(v[0]))] if v[0] else []) + ([('deprecated', str(v[1]))] if v[1] != NYD else []))
    for v in vs:
        for w in vs:
            for k in ('defaultValue', 'reservedValue', 'reserved'):
                yield case(D([bit('a', '1', **{k: 'true'}, **kv(v)), bit('b', '1', **kv(w))], length='1', nonUniqueAllowed='true'))
            yield case(D([bit('a', '1', **kv(v)), bit('b', '1', **kv(w))], length='1', nonUniqueAllowed='true'))
        for w in (('9', None), ('12', None), (None, '8')):
            yield case(D([bit('a', '1', **kv(v))], length='1'))
    for _ in range(400 if tier == 'quick' else 5000):
        k = rng.choice(('defaultValue', 'reservedValue', 'reserved'))
        ts = [rng.choice(vs) for _ in range(rng.randint(3, 5))]
        vals = [rng.choice(['true', 'false']) if rng.random() < 0.4 else 'false' for _ in ts]
        if k == 'reserved':
            ts = [(0, NYD) if x == 'true' else v for v, x in zip(ts, vals)]
        bs = [bit('abcde'[i], '1', **{k: x}, **kv(v)) for i, (v, x) in enumerate(zip(ts, vals))]
        n = rng.randint(0, len(bs))
        yield case(D(bs, length='1', nonUniqueAllowed='true')) if n == 0 else case(D(bs[n:], nonUniqueAllowed='true'), D(bs[:n], length='1', nonUniqueAllowed='true'))
    for bl in ('3', '5', '8', '16'):
        for i in ('2', '4', '5', '7', '9'):
            yield case(D([], bf=True, bitLength=bl), D([bit('a', i)], length='2'))
            yield case(D([bit('b', '0')], bf=True, bitLength=bl), D([bit('a', i)], length='1'))
    for _ in range(1200 if tier == 'quick' else 20000):
        def bits(n):
            out = []
            for _ in range(n):
                b = bit(rng.choice('abcdefghijklmn') + rng.choice(['', '1', '2']), str(rng.choice([rng.randint(0, 7), rng.randint(0, 20), rng.randint(0, 70)])))
                for k in ('defaultValue', 'reservedValue', 'reserved'):
                    if rng.random() < 0.25:
                        b[k] = rng.choice(['true', 'false', '1', '0'] + sorted(REFS) + (['zz'] if rng.random() < 0.1 else []))
                if rng.random() < 0.2:
                    b.update(kv(rng.choice(vs)))
                out.append(b)
            return out
        a = {}
        if rng.random() < 0.5:
            a['type'] = rng.choice(UNS)
        if rng.random() < 0.8 or not a:
            a['length'] = str(rng.randint(1, 8))
        for k in ('defaultValue', 'reservedValue'):
            if rng.random() < 0.3:
                a[k] = rng.choice(['true', 'false'] + sorted(REFS))
        if rng.random() < 0.4:
            a['nonUniqueAllowed'] = rng.choice(['true', 'false'])
        b = D(bits(rng.randint(0, 4)), kids=rng.choice([0, 0, rng.randint(0, 31)]), **a)
        k = rng.random()
        if k < 0.35:
            yield case(b)
        elif k < 0.5:
            b['bf'] = True
            b['a']['bitLength'] = str(rng.randint(1, 66))
            if rng.random() < 0.5:
                b['a'].pop('length', 0)
            yield case(b)
        else:
            a2 = {}
            for kk in ('defaultValue', 'reservedValue', 'nonUniqueAllowed'):
                if rng.random() < 0.3:
                    a2[kk] = rng.choice(['true', 'false'])
            if rng.random() < 0.1:
                a2['length'] = str(rng.randint(1, 8))
            d = D(bits(rng.randint(0, 3)), **a2)
            if rng.random() < 0.3:
                d['bf'] = True
                d['a']['bitLength'] = str(rng.randint(1, 64))
            yield case(d, b)


def judge(c, o):
    d, base = c[2]
    if 'crash' in o:
        return ('crash', o['crash'][-300:])
    b = define(base) if base else None
    e = define(d, b) if not base or b else None
    if d.get('bf') and e and 8 * ((e['bl'] + 7) // 8) > 64:
        return None
    if d.get('bf') and TX.py_num(d['a'].get('bitLength', '8'), 1, 64) is None:
        e = None
    if e is None:
        if o.get('valid'):
            return ('accepted', 'accepted although no such set definition is proper: %r reusing %r' % (d, base))
        return None if o.get('errs') else ('silent', 'rejected without a reported error: %r' % (d,))
    if not o.get('valid'):
        return ('rejected', 'a proper set is rejected: %r reusing %r: %s' % (d, base, (o.get('msgs') or [''])[0][-200:]))
    f = {x['name']: x for x in o['schemas'][0]['ns'][0]['fields']}['bf' if d.get('bf') else 'f']
    if d.get('bf'):
        f = f['members'][0]
        if int(f['bitlen']) != e['bl']:
            return ('bits', 'bit length %s instead of %d' % (f['bitlen'], e['bl']))
    got = {x['name']: {k: (bool(x[k]) if k in ('def', 'res', 'resv') else int(x[k]) % 2**32) for k in ('idx', 'since', 'depr', 'def', 'res', 'resv')} for x in f['bits']}
    want = {x['name']: {k: x[k] for k in ('idx', 'since', 'depr', 'def', 'res', 'resv')} for x in e['bits']}
    if got != want or len(f['bits']) != len(e['bits']):
        return ('named', 'the bits are %s instead of %s' % (got, want))
    if sorted((int(x['idx']), x['name']) for x in f['rev']) != sorted((x['idx'], x['name']) for x in e['bits']):
        return ('rev', 'the index-to-name view is %s for %s' % (f['rev'], want))
    if (bool(f['defbit']), bool(f['resbit'])) != (e['db'], e['rb']):
        return ('unnamed', 'the values of unnamed bits are %s, %s' % (f['defbit'], f['resbit']))
    u = len({x['idx'] for x in e['bits']}) == len(e['bits'])
    if bool(f['uniq']) != u or bool(f['nonuniq']) != e['non']:
        return ('uniq', 'uniqueness is reported as %s, equal indices allowed as %s: %r reusing %r' % (f['uniq'], f['nonuniq'], d, base))
    if f['type'] != UNTYPE(e['t']) or int(f['maxlen']) != e['ln'] or int(f['minlen']) != e['ln']:
        return ('length', 'type %s length %s..%s instead of %s %d' % (f['type'], f['minlen'], f['maxlen'], e['t'], e['ln']))
    return None


def UNTYPE(t):
    return TYPES.index(t)


BOUND = 'generated set definitions: every type x lengths, bit lengths and border indices, boolean texts and references, duplicates with and without permission, overlapping versions of one index, reuse, random definitions'
ASSUME = ['the children and properties of an XML node are functions of the node (libxml2)', 'a reference to another definition stands for the boolean parseStrToBool of the protocol gives (C18)',
          'fewer than 2^40 bits', 'at the start of parseUpdateBits the two views of a reused set hold the same pairs, their versions in order (every insertion proves it for the pair it adds)']
