"""C09: the generated protocol contains exactly the elements of its version range."""
import z3
from irv.contract import Contract, set_str
from irv.engine import SV, StrS, And, Or, Not, Implies, bl, bv, Ptr, ObjS
from irv.xml import schema, el

G = 'commsdsl::gen::'
SI = G + 'GenSchemaImpl'
GS = G + 'GenSchema'
GG = G + 'GenGenerator'
GI = G + 'GenGeneratorImpl'
SRCS = ['gen/GenSchema.cpp', 'gen/GenGenerator.cpp', 'gen/comms.cpp', 'gen/GenElem.cpp', 'gen/GenField.cpp', 'gen/GenMessage.cpp', 'parse/ParseSchema.cpp', 'parse/ParseField.cpp', 'parse/ParseMessage.cpp']
LAYOUT_SRCS = ['gen/GenSchema.cpp', 'gen/GenGenerator.cpp', 'gen/GenField.cpp', 'gen/GenMessage.cpp']
BOUND = 'all triples (since, deprecated, removed) around the boundary versions for every forced schema version, minimal remote version and version dependence, on schemas of version 0 to 5'
NYD = 2**32 - 1


def b32(v):
    return z3.BitVecVal(v, 32)


def pv(cx, p, cls):
    return cx.view(Ptr(p.obj, p.off), cls)


def impl(cx, schema_ptr=None):
    """view of the implementation object of a GenSchema"""
    if schema_ptr is None:
        return pv(cx, cx.old('m_impl'), SI)
    return pv(cx, pv(cx, schema_ptr, GS)('m_impl'), SI)


def version_of(cx, v):
    """the version of the generated code: the forced one, else the one of the schema"""
    f = v('m_forcedSchemaVersion')
    w = f.size()
    parse = pv(cx, v('m_parseObj.m_pImpl'), 'commsdsl::parse::ParseSchemaImpl')('m_version')
    return z3.If(f >= 0, z3.Extract(31, 0, f) if w > 32 else f, bv(parse, 32))


def exists(cx, v, a):
    return And(z3.ULE(a[0], version_of(cx, v)), Not(And(a[2], z3.ULE(a[1], v('m_minRemoteVersion')))))


def optional(cx, v, a):
    return Or(z3.ULT(v('m_minRemoteVersion'), a[0]), And(a[2], a[1] != b32(NYD)))


def args(cx, k=0):
    return bv(cx.arg(k), 32), bv(cx.arg(k + 1), 32), bl(cx.arg(k + 2))


def ens_exists(get):
    return lambda cx: [('exists exactly if introduced by the schema version and not removed by the minimal remote one', cx.res == exists(cx, get(cx), args(cx)))]


def ens_optional(get):
    return lambda cx: [('optional exactly if some remote version lacks it', cx.res == optional(cx, get(cx), args(cx)))]


def ens_version(get):
    return lambda cx: [('the version is the forced one, else the one of the schema', bv(cx.res, 32) == version_of(cx, get(cx)))]


def ens_depr(get):
    return lambda cx: [('deprecated exactly if deprecated before the schema version', cx.res == z3.ULT(bv(cx.arg(0), 32), version_of(cx, get(cx))))]


def own(cx):
    return cx.old


def via(cx):
    return impl(cx)


def curr(cx):
    g = pv(cx, cx.old('m_impl'), GI)
    return impl(cx, g('m_currentSchema'))


def have_impl(cx):
    return [('the object is complete', Not(bl(cx.old('m_impl').nul)))]


def have_curr(cx):
    g = pv(cx, cx.old('m_impl'), GI)
    p = g('m_currentSchema')
    return [('the object is complete', Not(bl(cx.old('m_impl').nul))), ('a schema is being processed', Not(bl(p.nul))), ('the schema is complete', Not(bl(pv(cx, p, GS)('m_impl').nul)))]


def setter(member, val, label):
    return lambda cx: [(label, val(cx.new(member)) == val(cx.arg(0)))]


def ens_force(cx):
    n = cx.new('m_forcedSchemaVersion')
    w = n.size()
    a = bv(cx.arg(0), 32)
    return [('the version asked for is the one used', And(n >= 0, (z3.Extract(31, 0, n) if w > 32 else n) == a))]


PF, PM = 'commsdsl::parse::ParseFieldImpl', 'commsdsl::parse::ParseMessageImpl'
since_of = z3.Function('obs_since_of', ObjS, z3.BitVecSort(32))
elem_type = z3.Function('obs_elem_type', ObjS, z3.BitVecSort(32))
MESSAGE, FIELD = 2, 3


def parse_field(cx, p):
    g = pv(cx, pv(cx, p, G + 'GenField')('m_impl'), G + 'GenFieldImpl')
    return g('m_parseObj.m_pImpl'), pv(cx, g('m_parseObj.m_pImpl'), PF)


def parse_msg(cx, p):
    g = pv(cx, pv(cx, p, G + 'GenMessage')('m_impl'), G + 'GenMessageImpl')
    return g('m_parseObj.m_pImpl'), pv(cx, g('m_parseObj.m_pImpl'), PM)


wf = z3.Function('obs_complete', ObjS, z3.BoolSort())


def since_pre(cx):
    return [('the element and those above it are complete', wf(cx.ident(cx.arg(0))))]


def complete(cx):
    """what completeness of an element means (constructors of the element classes)"""
    e = cx.arg(0)
    facts = since_facts(cx) + [('', wf(cx.ident(pv(cx, e, G + 'GenElem')('m_parent'))))]
    cx.st0.assume(Implies(wf(cx.ident(e)), And(*[x for _, x in facts])))


def since_facts(cx):
    e = cx.arg(0)
    t = elem_type(cx.ident(e))
    par = pv(cx, e, G + 'GenElem')('m_parent')
    fi, mi = pv(cx, e, G + 'GenField')('m_impl'), pv(cx, e, G + 'GenMessage')('m_impl')
    return [('a field has a parent', Implies(t == FIELD, And(Not(bl(par.nul)), Not(bl(parse_field(cx, e)[0].nul)), Not(bl(fi.nul))))),
            ('a message is complete', Implies(t == MESSAGE, And(Not(bl(parse_msg(cx, e)[0].nul)), Not(bl(mi.nul)))))]


def since_ens(cx):
    e = cx.arg(0)
    t = elem_type(cx.ident(e))
    par = pv(cx, e, G + 'GenElem')('m_parent')
    f, m = parse_field(cx, e)[1]('m_rState.m_sinceVersion'), parse_msg(cx, e)[1]('m_rState.m_sinceVersion')
    up = since_of(cx.ident(par))
    return [('the version that introduced it or its container', bv(cx.res, 32) == z3.If(t == MESSAGE, m, z3.If(t == FIELD, z3.If(z3.UGT(f, up), f, up), b32(0))))]


schema_of = z3.Function('obs_schema_of', ObjS, ObjS)


def field_of(cx):
    return parse_field(cx, cx.arg(0))[1]


def vo_optional(cx, f):
    """what the current schema of the generator answers for the field"""
    g = pv(cx, pv(cx, cx.arg(1), GG)('m_impl'), GI)
    return optional(cx, impl(cx, g('m_currentSchema')), (f('m_rState.m_sinceVersion'), f('m_rState.m_deprecated'), bl(f('m_rState.m_deprecatedRemoved'))))


def vo_dep(cx):
    oid = cx.eng.lazy_obj(cx.st0, schema_of(cx.ident(cx.arg(0))), GS, 'schema')
    return bl(impl(cx, Ptr(oid))('m_versionDependentCode'))


def vo_pre(cx):
    oid = cx.eng.lazy_obj(cx.st0, schema_of(cx.ident(cx.arg(0))), GS, 'schema')
    gp = pv(cx, cx.arg(1), GG)('m_impl')
    cur = pv(cx, gp, GI)('m_currentSchema')
    return since_pre(cx) + [('it is a field', elem_type(cx.ident(cx.arg(0))) == FIELD), ('the generator is complete', And(Not(bl(gp.nul)), Not(bl(cur.nul)), Not(bl(pv(cx, cur, GS)('m_impl').nul)))),
                            ('its schema is complete', Not(bl(pv(cx, Ptr(oid), GS)('m_impl').nul)))]


def vo_ens(cx):
    f = field_of(cx)
    s, d, r = f('m_rState.m_sinceVersion'), f('m_rState.m_deprecated'), bl(f('m_rState.m_deprecatedRemoved'))
    up = since_of(cx.ident(pv(cx, cx.arg(0), G + 'GenElem')('m_parent')))
    return [('optional exactly if version dependent and some remote version has its container without it',
             bl(cx.res) == And(vo_dep(cx), vo_optional(cx, f), Or(z3.ULT(up, s), And(r, d != b32(NYD)))))]


def ap_schema_of(eng, st, args, ins, mod, name):
    return [(st, 'ret', Ptr(eng.lazy_obj(st, schema_of(eng.ident_of(st, args[-1])), GS, 'schema')))]


def valid_schema(cx):
    """object invariant: made from a valid schema object (GenGeneratorImpl::genPrepare)"""
    v = cx.old
    cx.st0.assume(Not(bl(v('m_parseObj.m_pImpl').nul)))


def too_new(cx):
    v = cx.old
    parse = pv(cx, v('m_parseObj.m_pImpl'), 'commsdsl::parse::ParseSchemaImpl')('m_version')
    f = v('m_forcedSchemaVersion')
    return [('the forced version is above the one of the schema', And(f >= 0, f < 2**32 if f.size() > 32 else True, z3.UGT(z3.Extract(31, 0, f), bv(parse, 32))))]


def ap_log(eng, st, args, ins, mod, name):
    st.g['gh:err'] = True
    return [(st, 'ret', None)]


def ap_logger(eng, st, args, ins, mod, name):
    return [(st, 'ret', Ptr(eng.lazy_obj(st, z3.Const('the_logger', ObjS), G + 'GenLogger', 'logger')))]


def contracts():
    out = [Contract(GG + '::genLogger', apply_fn=ap_logger, trusted=True, note='the logger exists'),
           Contract(G + 'GenLogger::genError', apply_fn=ap_log, trusted=True, note='reports an error'),
           Contract(G + 'util::genNumToString', apply_fn=lambda eng, st, args, ins, mod, name: (set_str(eng, st, args[0], SV(z3.FreshConst(StrS, 'txt'))), [(st, 'ret', None)])[1],
                    trusted=True, note='C15'),
           Contract(SI + '::genPrepare', requires=too_new, ensures=lambda cx: [('a version above the one of the schema is refused', Not(bl(cx.res))), ('the refusal is reported', bl(cx.err()))],
                    modifies=[], callable=False, insts=valid_schema, label=SI + '::genPrepare (forced version above that of the schema)'),
           Contract('virtual ' + G + 'GenElem::genElemTypeImpl', cls=G + 'GenElem', pure='elem_type', trusted=True, note='constant of the class'),
           Contract(GG + '::genSchemaOf', apply_fn=ap_schema_of, trusted=True, note='the schema above the element'),
           Contract(G + 'comms::genSinceVersionOf', requires=since_pre, ensures=since_ens, pure='since_of', modifies=[], insts=complete),
           Contract(G + 'comms::genIsVersionOptionalField', requires=vo_pre, ensures=vo_ens, modifies=[], insts=complete)]
    for nm, ens in (('genDoesElementExist', ens_exists), ('genIsElementOptional', ens_optional), ('genSchemaVersion', ens_version), ('genIsElementDeprecated', ens_depr)):
        if nm != 'genIsElementDeprecated':
            out.append(Contract(SI + '::' + nm, ensures=ens(own), modifies=[], insts=valid_schema))
        out.append(Contract(GS + '::' + nm, requires=have_impl, ensures=ens(via), modifies=[]))
        if nm != 'genSchemaVersion':
            out.append(Contract(GG + '::' + nm, requires=have_curr, ensures=ens(curr), modifies=[]))
    out.append(Contract(SI + '::genForceSchemaVersion', ensures=ens_force, modifies=['m_forcedSchemaVersion']))
    out.append(Contract(GI + '::genForceSchemaVersion', ensures=ens_force, modifies=['m_forcedSchemaVersion']))
    for c in (SI, GI):
        out.append(Contract(c + '::genSetMinRemoteVersion', ensures=lambda cx: [('stored', cx.new('m_minRemoteVersion') == bv(cx.arg(0), 32))], modifies=['m_minRemoteVersion']))
        out.append(Contract(c + '::genSetVersionIndependentCodeForced', ensures=lambda cx: [('stored', bl(cx.new('m_versionIndependentCodeForced')) == bl(cx.arg(0)))],
                            modifies=['m_versionIndependentCodeForced']))
    out.append(Contract(SI + '::genVersionDependentCode', ensures=lambda cx: [('as determined', bl(cx.res) == bl(cx.old('m_versionDependentCode')))], modifies=[]))
    return out


# ------------------------------------------------------------------ bounded replay
def case(ver, forced, mr, indep, iface, msgs, queries):
    """msgs: list of (since, depr, removed, fields); a field is (since, depr, removed, members or None)"""
    names, body = {}, ''

    def va(s, d, r):
        return dict(sinceVersion=s or None, deprecated=d, removed='true' if r else None)

    def field(f, pre, up):
        nm = '%s%d' % (pre, len(names))
        s, d, r, mem = f
        names[nm] = (max(up, s), d, r, up)
        if mem is None:
            return el('int', dict(name=nm, type='uint8', **va(s, d, r)))
        return el('bundle', dict(name=nm, **va(s, d, r)), ''.join(field(m, 'M', max(up, s)) for m in mem))
    for i, (s, d, r, fs) in enumerate(msgs):
        body += el('message', dict(name='Msg%d' % i, id=i + 1, **va(s, d, r)), ''.join(field(f, 'F', s) for f in fs))
    fields = el('int', dict(name='Ver', type='uint32', semanticType='version'))
    if iface:
        body += el('interface', dict(name='If'), el('ref', dict(name='V', field='Ver')))
    xml = schema(fields, body, version=ver)
    q = ' '.join('%d %d %d' % (a, b, int(r)) for a, b, r in queries)
    return ('V', '%s %s %d\x1f%s\x1f%s' % ('-' if forced is None else forced, '-' if mr is None else mr, int(indep), xml, q),
            dict(ver=ver, forced=forced, mr=mr or 0, dep=iface and not indep, names=names, queries=queries))


def judge(case, o):
    i = case[2]
    ver = i['ver'] if i['forced'] is None else i['forced']
    want_ok = i['forced'] is None or i['forced'] <= i['ver']
    if o['ok'] != want_ok:
        return ('forced', 'a forced version of %s on a schema of version %d must be %s' % (i['forced'], i['ver'], 'accepted' if want_ok else 'refused'))
    if not want_ok:
        return None
    o = dict(o, version=int(o['version']))
    if o['version'] != ver:
        return ('version', 'the version of the generated code is %d, must be %d' % (o['version'], ver))
    if bool(o['verdep']) != bool(i['dep']):
        return ('dependent', 'version dependent code: %s, must be %s' % (o['verdep'], i['dep']))
    for (s, d, r), (e, op, _) in zip(i['queries'], o['q']):
        we = s <= ver and not (r and d <= i['mr'])
        wo = i['mr'] < s or (r and d < NYD)
        if bool(e) != we:
            return ('exists', 'since %d deprecated %d removed %d with version %d and remotes from %d on: exists %d, must be %d' % (s, d, r, ver, i['mr'], e, we))
        if bool(op) != wo:
            return ('optional', 'since %d deprecated %d removed %d with version %d and remotes from %d on: optional %d, must be %d' % (s, d, r, ver, i['mr'], op, wo))
    got = dict(o['vopt'])
    for nm, (s, d, r, up) in i['names'].items():
        w = bool(i['dep'] and ((i['mr'] < s and up < s) or (r and d is not None)))
        if nm not in got:
            return ('missing', 'field %s is missing' % nm)
        if bool(got[nm]) != w:
            return ('version-optional', 'field %s (since %s in a container since %s, deprecated %s removed %s, remotes from %d on): version optional %d, must be %d' % (nm, s, up, d, r, i['mr'], got[nm], w))
    return None


def cases(rng, tier):
    def vers(ver, lo=0):
        s = rng.randrange(lo, ver + 1)
        d = rng.randrange(s + 1, ver + 1) if s < ver and rng.random() < .5 else None
        return s, d, d is not None and rng.random() < .7

    def rfield(ver, lo, hi, depth):
        while True:
            s, d, r = vers(ver, lo)
            if hi is not None and (s >= hi or (d or hi) > hi):
                continue
            break
        mem = None
        if depth and rng.random() < .4:
            e = d if d is not None else hi
            mem = [(s, d, False, None)] if d else [(s, None, False, None)]
            mem += [rfield(ver, s, e, depth - 1) for _ in range(2)]
        return (s, d, r, mem)
    top = 2**32 - 2
    for ver in (0, 1, 3, 5):
        for forced in [None] + list(range(0, ver + 2)) + [2**31 - 1, 2**31, 3000000000, NYD]:
            for mr in (None, 0, 1, 2, 4):
                for indep, iface in ((0, 1), (1, 1), (0, 0)):
                    q = [(a, b, r) for a in range(0, ver + 2) for b in list(range(a + 1, ver + 2)) + [NYD] for r in (0, 1)]
                    q += [(rng.randrange(2**32), rng.randrange(2**32), rng.randrange(2)) for _ in range(10)]
                    ms = []
                    for _ in range(2):
                        s, d, r = vers(ver)
                        ms.append((s, d, r, [(s, None, False, None)] + [rfield(ver, s, d, 2) for _ in range(3)]))
                    yield case(ver, forced, mr, indep, iface, ms, q)
    for ver, forced in ((top, None), (top, 2**31), (top, 2**31 - 1), (top, top), (2**31, 2**31), (2**31, 2**31 + 1), (2**31, 0), (top, NYD)):
        for mr in (None, 2**31 - 1, 2**31, top):
            q = [(a, b, r) for a in (0, 1, 2**31 - 1, 2**31, 2**31 + 1, top - 1, top) for b in (1, 2**31, top, NYD) if b > a for r in (0, 1)]
            yield case(ver, forced, mr, 0, 1, [(0, None, False, [(2**31, None, False, None), (1, 2**31, True, None)])], q)
    for _ in range(30 if tier == 'quick' else 1500):
        ver = rng.choice([2, 4, 6, 9])
        ms = []
        for _ in range(3):
            s, d, r = vers(ver)
            ms.append((s, d, r, [rfield(ver, s, d, 3) for _ in range(4)]))
        yield case(ver, rng.choice([None, rng.randrange(ver + 1)]), rng.randrange(ver + 2), rng.random() < .2, 1, ms, [(rng.randrange(ver + 2), rng.randrange(ver + 2), 1) for _ in range(5)])


ASSUME = ['the generator objects are complete (the preconditions named "complete"): established by their constructors and GenGeneratorImpl::genPrepare, exercised by the bounded replay',
          'whether an interface has a version field (GenSchemaImpl::genAnyInterfaceHasVersion) is only checked by the bounded replay']
