"""C20: generated entities get distinct, correctly scoped names and files."""
import z3
from irv.contract import Contract
from irv.engine import StrS, ObjS, schr, slen, And, Or, Not, Implies, bl, bv, SV, strlit, Ptr
from irv import stl
from irv.stl import set_str, get_str
from irv.contract import V
from props import textfn as T
from props.C19 import raw, isnull

G = 'commsdsl::gen::'
C = G + 'comms::'
AN = C
ELEM, GEN, SCHEMA = G + 'GenElem', G + 'GenGenerator', G + 'GenSchema'
SRCS = ['gen/comms.cpp', 'gen/strings.cpp', 'gen/GenGenerator.cpp', 'gen/GenElem.cpp', 'gen/GenSchema.cpp', 'gen/GenNamespace.cpp', 'gen/GenMessage.cpp', 'gen/GenField.cpp', 'gen/GenInterface.cpp', 'gen/GenFrame.cpp', 'gen/GenLayer.cpp']
USE_BASE = False
LAYOUT_SRCS = ['gen/GenSchema.cpp']
LEVEL = 'proof'
WALL = 150
BOUND = 'every place of every element, and what is placed beside every namespace, for one or two schemas of elements nested up to 4 deep (namespaces, fields in fields), with names that repeat at different levels, 11 combinations of namespace overrides, with and without a top namespace, with either schema current'
EMPTY = strlit('')
B = z3.BoolSort()
NS, MSG, FLD, IFC, FRM, LAY, SCH = range(1, 8)
etype = z3.Function('obs_elemtype', ObjS, z3.BitVecSort(32))
scope = z3.Function('spec_scope', ObjS, B, B, StrS, ObjS, StrS)          # element, main namespace, with the element, separator, whose scope
common = z3.Function('spec_common_scope', ObjS, B, B, StrS, ObjS, StrS)
nsbeg = z3.Function('spec_ns_begin', ObjS, StrS)
nsend = z3.Function('spec_ns_end', ObjS, StrS)
schema_of = z3.Function('spec_schema_of', ObjS, ObjS)
upper = z3.Function('obs_clsname', StrS, StrS)


def text_at(name, cls=None):
    """a text that belongs to an object"""
    f = z3.Function('obs_' + name, ObjS, ObjS)

    def of(eng, st, i):
        return get_str(eng, st, Ptr(eng.lazy_obj(st, f(i), None, name), 0, nul=False))
    return of


ename, mainns, orig, topns, outdir, codedir = (text_at(x) for x in ('elemname', 'mainns', 'origns', 'topns', 'outdir', 'codedir'))


def ap_text(of, name):
    f = z3.Function('obs_' + name, ObjS, ObjS)

    def ap(eng, st, args, ins, mod, nm):
        return [(st, 'ret', Ptr(eng.lazy_obj(st, f(eng.ident_of(st, raw(args[0]))), None, name), 0, nul=False))]
    return ap


def ap_type(eng, st, args, ins, mod, nm):
    t = etype(eng.ident_of(st, raw(args[0])))
    st.assume(And(z3.UGE(t, 1), z3.ULE(t, 7)))
    return [(st, 'ret', t)]


def ap_schema(eng, st, args, ins, mod, nm):
    return [(st, 'ret', Ptr(eng.lazy_obj(st, schema_of(eng.ident_of(st, raw(args[-1]))), SCHEMA, 'schema'), 0, nul=False))]


def ap_current(eng, st, args, ins, mod, nm):
    f = z3.Function('obs_current_schema', ObjS, ObjS)
    return [(st, 'ret', Ptr(eng.lazy_obj(st, f(eng.ident_of(st, raw(args[0]))), SCHEMA, 'schema'), 0, nul=False))]


def ap_cls(eng, st, args, ins, mod, nm):
    set_str(eng, st, args[0], SV(upper(get_str(eng, st, args[1]).z())))
    return [(st, 'ret', None)]


def leaf_of(eng, st, p, e):
    if p.obj is None:
        return e
    i = eng.ident_of(st, raw(p))
    return z3.If(bl(isnull(p)), e, i)


def ap_scope(f):
    def ap(eng, st, args, ins, mod, nm):
        e = eng.ident_of(st, raw(args[1]))
        set_str(eng, st, args[0], SV(f(e, bl(args[3]), bl(args[4]), get_str(eng, st, args[5]).z(), leaf_of(eng, st, args[6], e))))
        return [(st, 'ret', None)]
    return ap


def parent(cx, i=0):
    p = cx.view(cx.arg(i), ELEM)('m_parent')
    return p, cx.eng.ident_of(cx.st0, raw(p))


def tree(cx):
    """an element other than a schema, at a place where it may be"""
    p, P = parent(cx)
    e = cx.ident(cx.arg(0))
    te, tp = etype(e), etype(P)
    cx.st0.assume(And(*[And(z3.UGE(t, 1), z3.ULE(t, 7)) for t in (te, tp)]))
    at = lambda *ks: Or(*[tp == k for k in ks])
    return [('it is in a tree', And(Not(bl(p.nul)), te != SCH, e != P)),
            ('at a place of its kind', And(Implies(te == NS, at(NS, SCH)), Implies(Or(te == MSG, te == FRM, te == IFC), tp == NS), Implies(te == LAY, tp == FRM),
                                           Implies(te == FLD, at(NS, MSG, IFC, FLD, LAY))))]


KIND = {FLD: 'field', MSG: 'message', FRM: 'frame', LAY: 'layer'}


def in_kind(te, tp):
    """the kinds that have a namespace of their own"""
    return [(And(te == FLD, tp == NS), 'field'), (te == MSG, 'message'), (te == FRM, 'frame')]


def cat(*xs):
    r = SV('')
    for x in xs:
        r = stl.concat(r, x if isinstance(x, SV) else SV(x))
    return r


def scope_ens(kind):
    def ens(cx):
        eng, st = cx.eng, cx.st1
        p, P = parent(cx)
        e = cx.ident(cx.arg(0))
        te, tp = etype(e), etype(P)
        main, add, sep = bl(cx.arg(2)), bl(cx.arg(3)), cx.str_arg(4)
        leaf = leaf_of(eng, cx.st0, cx.arg(5), e)
        f = scope if kind == 0 else common
        types = And(etype(leaf) == FLD, sep.z() == strlit('::'))
        r = cx.ret_str()
        up = SV(f(P, main, z3.BoolVal(True), sep.z(), leaf))
        root = mainns(eng, st, schema_of(e))
        name = ename(eng, st, e)
        out = []
        kinds = in_kind(te, tp)
        none = And(*[Not(c) for c, _ in kinds])
        kinds = kinds + [(none, '')]
        cls = SV(upper(name.z()))
        if kind == 0:
            sfx = [(And(types, Or(te == MSG, te == IFC)), 'Fields'), (And(types, te == LAY), 'Members'), (And(types, te == FRM), 'Layers'),
                   (And(types, te == FLD, e != leaf), 'Members'), (And(Not(types), te == FRM, etype(leaf) != FRM), 'Layers')]
            clss = [(Not(And(te == IFC, slen(upper(name.z())) == 0)), cls), (And(te == IFC, slen(upper(name.z())) == 0), SV('Message'))]
        else:
            sfx = [(And(types, Or(te == MSG, te == IFC)), 'FieldsCommon'), (And(types, te == LAY), 'MembersCommon'), (And(types, te == FRM), 'LayersCommon'),
                   (And(types, te == FLD, e != leaf), 'MembersCommon')]
            sfx += [(And(te != NS, Not(Or(*[c for c, _ in sfx]))), 'Common')]
            clss = [(z3.BoolVal(True), cls)]
        sfx += [(Not(Or(*[c for c, _ in sfx])), '')]
        live = lambda xs: [x for x in xs if not eng.must(st, Not(x[0]))]        # the cases possible on this way
        kinds, sfx, clss = live(kinds), live(sfx), live(clss)
        adds, names_ = live([(add, 1), (Not(add), 0)]), live([(te == NS, 'ns'), (te != NS, 'el')])
        adds, names_ = [b for _, b in adds], [b for _, b in names_]
        for bc, base, bn in live(((tp != SCH, up, 'inside the scope of its parent'), (And(tp == SCH, main), root, 'in the main namespace'), (And(tp == SCH, Not(main)), SV(''), 'at the root'))):
            empty = z3.BoolVal(True) if isinstance(base.v, str) else bv(eng.str_len(st, base), 64) == 0
            for ec, pre in live(((empty, cat(base)), (Not(empty), cat(base, sep)))):
                w = [bc, ec]
                if 0 not in adds:
                    pass
                elif kind == 0:
                    for kc, k in kinds:
                        out.append(('%s: without the element' % bn, w + [Not(add), kc], cat(pre, SV(k)) if k else base))
                else:
                    out.append(('%s: without the element' % bn, w + [Not(add)], base))
                for nc, nm in live(((bv(eng.str_len(st, name), 64) == 0, base), (bv(eng.str_len(st, name), 64) != 0, cat(pre, name)))) if 1 in adds and 'ns' in names_ else ():
                    out.append(('%s: namespace' % bn, w + [add, te == NS, nc], nm))
                for kc, k in kinds if 1 in adds and 'el' in names_ else ():
                    for cc, c in clss:
                        for sc, s in sfx:
                            out.append(('%s: %s element%s' % (bn, k or 'plain', ' with ' + s if s else ''), w + [add, te != NS, kc, cc, sc], cat(pre, *([SV(k), sep] if k else []), c, SV(s))))
        res = {}
        for nm, cond, want in out:
            if want is None:
                continue
            res.setdefault(nm, []).append(Implies(And(*cond), T.same(cx, r, want)))
        return [(k, And(*v)) for k, v in res.items()]
    return ens


def beg_ens(end):
    """the namespaces opened (closed) around an element: those of its scope, from the outside in (from the inside out)"""
    def ens(cx):
        eng, st = cx.eng, cx.st1
        p, P = parent(cx)
        e = cx.ident(cx.arg(0))
        te, tp = etype(e), etype(P)
        r = cx.ret_str()
        g = cx.ident(cx.arg(1))
        name, top, main = ename(eng, st, e), topns(eng, st, g), mainns(eng, st, schema_of(e))
        live = lambda xs: [x for x in xs if not eng.must(st, Not(x[0]))]
        line = (lambda x: cat(SV('} // namespace '), x, SV('\n\n'))) if end else (lambda x: cat(SV('namespace '), x, SV('\n{\n\n')))
        f = nsend if end else nsbeg
        n0 = lambda t: bv(eng.str_len(st, t), 64) == 0
        out = []
        kinds = in_kind(te, tp)
        if True:
            kinds = kinds + [(te == LAY, 'layer')]
        kinds = kinds + [(And(*[Not(c) for c, _ in kinds]), '')]
        for bc, outer in live(((tp != SCH, [SV(f(P))]), (And(tp == SCH, n0(top)), [line(main)]), (And(tp == SCH, Not(n0(top))), [line(main), line(top)] if end else [line(top), line(main)]))):
            for kc, k in live(kinds):
                for nc, own in live(((And(te == NS, Not(n0(name))), [line(name)]), (Not(And(te == NS, Not(n0(name)))), []))):
                    own = own + ([line(SV(k))] if k else [])
                    out.append(Implies(And(bc, kc, nc), T.same(cx, r, cat(*(own + outer) if end else (outer + own)))))
        return [('the namespaces of the scope of the element, in their order', And(*out))]
    return ens


def ap_beg(f):
    def ap(eng, st, args, ins, mod, nm):
        set_str(eng, st, args[0], SV(f(eng.ident_of(st, raw(args[1])))))
        return [(st, 'ret', None)]
    return ap


def schema_of_ens(cx):
    p, P = parent(cx)
    e = cx.ident(cx.arg(0))
    r = cx.eng.ident_of(cx.st1, raw(cx.result))
    return [('the schema at the top', r == z3.If(etype(P) == SCH, P, schema_of(P)))]


def below(cx):
    return tree(cx)


# ------------------------------------------------------------------ names placed under fixed namespaces
def cur_main(cx, g):
    f = z3.Function('obs_current_schema', ObjS, ObjS)
    return mainns(cx.eng, cx.st1, f(cx.ident(cx.arg(g))))


def joined(cx, sep, sfx, comps, r=None, prefix=None):
    """components with their condition, joined by the separator"""
    eng, st = cx.eng, cx.st1
    r = cx.ret_str() if r is None else r
    outs = [([], cat(), z3.BoolVal(True))]
    for use, c in comps:
        new = []
        for conds, t, empty in outs:
            for uc, on in ((use, True), (Not(use), False)):
                if eng.must(st, Not(And(*(conds + [uc])))):
                    continue
                if not on:
                    new.append((conds + [uc], t, empty))
                    continue
                for ec, pre in ((empty, t), (Not(empty), cat(t, SV(sep)))):
                    if eng.must(st, Not(And(*(conds + [uc, ec])))):
                        continue
                    x = cat(pre, c)
                    new.append((conds + [uc, ec], x, And(*[empty, bv(eng.str_len(st, c), 64) == 0]) if pre is t else z3.BoolVal(False)))
        outs = new
    return [('the main namespace, the inner ones and the name, in this order', And(*[Implies(And(*c), T.same(cx, r, cat(*((prefix or []) + [t, SV(sfx)])))) for c, t, _ in outs]))]


TRUE = z3.BoolVal(True)


WHERE = {'OUT': outdir, 'CODE': codedir, 'ORIG': orig}


def under(subs, sep='::', sfx='', main=None, elem=None, ns=None, name=0, gen=1, dirs=()):
    """(what is below the main namespace); main/elem: position of the flag"""
    def ens(cx):
        comps = [(TRUE if main is None else z3.BoolVal(False) if main is False else bl(cx.arg(main)), cur_main(cx, gen))]
        if ns is not None:
            # the namespaces from the outside in
            i = cx.ident(cx.arg(ns))
            nn = SV(scope(i, z3.BoolVal(False), z3.BoolVal(True), strlit(sep), i))
            comps.append((bv(cx.eng.str_len(cx.st1, nn), 64) != 0, nn))
        comps += [(TRUE, SV(x)) for x in subs]
        nm = ename(cx.eng, cx.st1, cx.ident(cx.arg(0))) if name == 'elem' else cx.str_arg(0)
        comps.append((TRUE if elem is None else bl(cx.arg(elem)), nm))
        cs = z3.Function('obs_current_schema', ObjS, ObjS)
        prefix = []
        for d in dirs:
            g = cx.ident(cx.arg(gen))
            prefix += [SV(d) if d not in WHERE else WHERE[d](cx.eng, cx.st1, cs(g) if d == 'ORIG' else g), SV('/')]
        return joined(cx, sep, sfx, comps, prefix=prefix)
    return ens


full = z3.Function('spec_full_name', ObjS, StrS)


def full_ens(cx):
    eng, st = cx.eng, cx.st1
    p, P = parent(cx)
    e = cx.ident(cx.arg(0))
    te, tp = etype(e), etype(P)
    name = ename(eng, st, e)
    up = SV(full(P))
    n0 = bv(eng.str_len(st, up), 64) == 0
    out = []
    for nc, own in ((te == NS, name), (te != NS, SV(upper(name.z())))):
        for bc, pre in ((Or(tp == SCH, n0), cat()), (And(tp != SCH, Not(n0)), cat(up, SV('_')))):
            if not eng.must(st, Not(And(nc, bc))):
                out.append(Implies(And(nc, bc), T.same(cx, cx.ret_str(), cat(pre, own))))
    return [('the names from the outside in', And(*out))]


def type_contracts():
    """the kind each class reports"""
    ens = lambda k: lambda cx: [('the kind of the class', cx.res == k)]
    return [Contract(G + c + '::genElemTypeImpl', ensures=ens(k), modifies=[], callable=False)
            for c, k in (('GenNamespace', NS), ('GenMessage', MSG), ('GenField', FLD), ('GenInterface', IFC), ('GenFrame', FRM), ('GenLayer', LAY), ('GenSchema', SCH))]


def named_contracts():
    out = []

    def add(fn, *a, **k):
        out.append(Contract(C + fn, ensures=under(*a, **k), modifies=[], callable=False, requires=lambda cx: [('names are short', z3.BoolVal(True))]))
    add('genScopeForOptions', ['options'], main=2, elem=3)
    add('genScopeForRoot', [], main=2, elem=3)
    add('genScopeForChecksum', ['frame', 'checksum'], main=2, elem=3)
    add('genScopeForCustomLayer', ['frame', 'layer'], main=2, elem=3, name='elem')
    for fn, sub in (('Input', ['input']), ('Factory', ['factory']), ('Dispatch', ['dispatch']), ('NamespaceMember', []), ('MsgId', [])):
        add('genScopeFor' + fn, sub, main=3, elem=4, ns=2)
    H, S = '.h', '.cpp'
    add('genRelHeaderPathForField', ['field'], '/', H)
    add('genRelHeaderForOptions', ['options'], '/', H, main=2)
    add('genRelHeaderForDispatch', ['dispatch'], '/', H, ns=2)
    add('genRelHeaderForFactory', ['factory'], '/', H, ns=2, main=3)
    add('genRelHeaderForMsgId', [], '/', H, ns=2)
    add('genRelHeaderForNamespaceMember', [], '/', H, ns=2, main=3)
    add('genRelSourceForNamespaceMember', [], '/', S, ns=2, main=3)
    add('genRelHeaderForLayer', ['frame', 'layer'], '/', H)
    add('genRelHeaderForChecksum', ['frame', 'checksum'], '/', H)
    add('genRelHeaderForInput', ['input'], '/', H, ns=2, main=3)
    add('genRelHeaderForRoot', [], '/', H, main=2)
    add('genRelSourceForRoot', [], '/', S, main=2)
    for d, a in (('Header', 'include'), ('Source', 'src')):
        add('gen%sPathRoot' % d, [], '/', H if d == 'Header' else S, dirs=('OUT', a))
    add('genHeaderPathForField', ['field'], '/', H, dirs=('OUT', 'include'))
    add('genHeaderPathForOptions', ['options'], '/', H, dirs=('OUT', 'include'))
    for fn, sub in (('Input', ['input']), ('Dispatch', ['dispatch']), ('Factory', ['factory']), ('MsgId', []), ('NamespaceMember', [])):
        add('genHeaderPathFor' + fn, sub, '/', H, ns=2, dirs=('OUT', 'include'))
    for fn, sub, ns in (('Root', [], None), ('Options', ['options'], None), ('Input', ['input'], 2), ('Factory', ['factory'], 2)):
        add('genInputCodeRelPathFor' + fn, sub, '/', H, ns=ns, main=False, dirs=('include', 'ORIG'))
        add('genInputCodeAbsPathFor' + fn, sub, '/', H, ns=ns, main=False, dirs=('CODE', 'include', 'ORIG'))
    add('genPathForDoc', [], '/', main=False, dirs=('OUT', 'doc'))
    add('genInputCodeAbsPathForDoc', [], '/', main=False, dirs=('CODE', 'doc'))
    return out


def path_ens(f, sep, sfx, dirs=(), main=True, add=None):
    def ens(cx):
        eng, st = cx.eng, cx.st1
        e, g = cx.ident(cx.arg(0)), cx.ident(cx.arg(1))
        m = bl(cx.arg(2)) if main == 2 else z3.BoolVal(main)
        a = z3.BoolVal(True) if add is None else bl(cx.arg(add))
        xs = []
        for d in dirs:
            xs += [d(eng, st, g, e) if callable(d) else SV(d), SV('/')]
        return [('the directory, the scope of the element and the suffix', T.same(cx, cx.ret_str(), cat(*xs, SV(f(e, m, a, strlit(sep), e)), SV(sfx))))]
    return ens


def elem_contracts():
    D = lambda eng, st, g, e: outdir(eng, st, g)
    K = lambda eng, st, g, e: codedir(eng, st, g)
    O = lambda eng, st, g, e: orig(eng, st, schema_of(e))
    sp = (('genScopeFor', scope, '::', '', (), 2, 3), ('genCommonScopeFor', common, '::', '', (), 2, 3),
          ('genRelHeaderPathFor', scope, '/', '.h', (), 2, None), ('genRelSourcePathFor', scope, '/', '.cpp', (), 2, None), ('genRelCommonHeaderPathFor', common, '/', '.h', (), True, None),
          ('genHeaderPathFor', scope, '/', '.h', (D, 'include'), True, None), ('genSourcePathFor', scope, '/', '.cpp', (D, 'src'), True, None),
          ('genCommonHeaderPathFor', common, '/', '.h', (D, 'include'), True, None),
          ('genInputCodeRelPathFor', scope, '/', '.h', ('include', O), False, None), ('genInputCodeAbsPathFor', scope, '/', '.h', (K, 'include', O), False, None))
    return [Contract(C + fn, ensures=path_ens(f, sep, sfx, dirs, main, a), modifies=[], callable=False) for fn, f, sep, sfx, dirs, main, a in sp]


def held(cx, field):
    p = cx.view(cx.arg('this'), SCHEMA)('m_impl')
    return cx.view(Ptr(p.obj, p.off), SCHEMA + 'Impl'), field, p


def has_impl(cx):
    v, _, p = held(cx, '')
    return [('it is made', Not(bl(p.nul)))]


def held_ens(field):
    def ens(cx):
        v, _, p = held(cx, field)
        return [('it is the text kept', T.same(cx, get_str(cx.eng, cx.st1, raw(cx.result)), cx.view(Ptr(p.obj, p.off), SCHEMA + 'Impl')(field)))]
    return ens


def override_ens(cx):
    p = cx.view(cx.arg('this'), SCHEMA)('m_impl')
    w = cx.view(Ptr(p.obj, p.off), SCHEMA + 'Impl', post=True)
    return [('the name given is used', T.same(cx, w('m_mainNamespace'), cx.str_arg(0))), ('the original one is kept', T.same(cx, w('m_origNamespace'), cx.view(Ptr(p.obj, p.off), SCHEMA + 'Impl')('m_origNamespace')))]


def schema_contracts():
    return [Contract(SCHEMA + '::gen%sNamespace' % n, label=SCHEMA + '::gen%sNamespace (kept)' % n, requires=has_impl, ensures=held_ens(f), modifies=[], callable=False)
            for n, f in (('Main', 'm_mainNamespace'), ('Orig', 'm_origNamespace'))] + \
        [Contract(SCHEMA + '::genSetMainNamespaceOverride', requires=has_impl, ensures=override_ens, callable=False)]


def contracts():
    out = [Contract('virtual ' + ELEM + '::genElemTypeImpl', cls=ELEM, apply_fn=ap_type, trusted=True, note='the kind of the element'),
           Contract(ELEM + '::genElemType', apply_fn=ap_type, trusted=True, note='the kind of the element'),
           Contract(ELEM + '::genName', apply_fn=ap_text(ename, 'elemname'), trusted=True, note='the name given in the schema'),
           Contract(SCHEMA + '::genMainNamespace', apply_fn=ap_text(mainns, 'mainns'), trusted=True, note='proved apart'),
           Contract(SCHEMA + '::genOrigNamespace', apply_fn=ap_text(orig, 'origns'), trusted=True, note='proved apart'),
           Contract(GEN + '::genSchemaOf', apply_fn=ap_schema, trusted=True, note='proved apart'),
           Contract(GEN + '::genCurrentSchema', apply_fn=ap_current, trusted=True, note='the schema chosen'),
           Contract(GEN + '::genGetTopNamespace', apply_fn=ap_text(topns, 'topns'), trusted=True, note='the option'),
           Contract(GEN + '::genGetOutputDir', apply_fn=ap_text(outdir, 'outdir'), trusted=True, note='the option'),
           Contract(GEN + '::genGetCodeDir', apply_fn=ap_text(codedir, 'codedir'), trusted=True, note='the option'),
           Contract(C + 'genClassName', apply_fn=ap_cls, trusted=True, note='C15'),
           Contract(AN + 'genScopeForInternal', apply_fn=ap_scope(scope), trusted=True, note='proved apart, by induction over the tree'),
           Contract(AN + 'genCommonScopeForInternal', apply_fn=ap_scope(common), trusted=True, note='proved apart, by induction over the tree'),
           Contract(AN + 'genScopeForInternal', label=AN + 'genScopeForInternal (tree)', requires=tree, ensures=scope_ens(0), modifies=[], callable=False),
           Contract(AN + 'genCommonScopeForInternal', label=AN + 'genCommonScopeForInternal (tree)', requires=tree, ensures=scope_ens(1), modifies=[], callable=False),
           Contract(C + 'genNamespaceBeginFor', apply_fn=ap_beg(nsbeg), trusted=True, note='proved apart, by induction over the tree'),
           Contract(C + 'genNamespaceEndFor', apply_fn=ap_beg(nsend), trusted=True, note='proved apart, by induction over the tree'),
           Contract(C + 'genNamespaceBeginFor', label=C + 'genNamespaceBeginFor (tree)', requires=tree, ensures=beg_ens(False), modifies=[], callable=False),
           Contract(C + 'genNamespaceEndFor', label=C + 'genNamespaceEndFor (tree)', requires=tree, ensures=beg_ens(True), modifies=[], callable=False),
           Contract(GEN + '::genSchemaOf', label=GEN + '::genSchemaOf (tree)', requires=below, ensures=schema_of_ens, modifies=[], callable=False)]
    out += [Contract(C + 'genFullNameFor', apply_fn=ap_beg(full), trusted=True, note='proved apart, by induction over the tree'),
            Contract(C + 'genFullNameFor', label=C + 'genFullNameFor (tree)', requires=tree, ensures=full_ens, modifies=[], callable=False)]
    return out + schema_contracts() + type_contracts() + named_contracts() + elem_contracts()


# ------------------------------------------------------------------ the real generator library against the components of each element
OPTS = ['-', '-', 'other', 'S:n1', 'S:n1,T:n2', 'n1,T:n2', 'T:n2', ',S:x,', 'U:zzz', 'my_proto:m', 'S:a,S:b']
POOL = ['a', 'b', 'val', 'Val2', 'x1', 'data', 'F', 'f2', 'msgA', 'commonX', 'sub', 'sub2', 'Outer', 'inner', 'member', 'layers1', 'aB', 'a_b', 'field1', 'message1']


def gen_tree(rng, X, deep=0):
    """xml of the contents of a namespace"""
    used = set()

    def name(pool=POOL):
        for _ in range(50):
            n = rng.choice(pool) + rng.choice(['', '', str(rng.randint(1, 9))])
            if n[0].lower() + n[1:] not in used:
                used.add(n[0].lower() + n[1:])
                return n
        n = 'u%d' % len(used)
        used.add(n)
        return n

    def fld(n, d=0):
        k = rng.choice(['int', 'int', 'enum', 'bundle', 'list', 'variant', 'optional', 'bitfield'] if d < 2 else ['int'])
        m = ['m%d' % i for i in range(rng.randint(1, 2))]
        if rng.random() < .4:
            m[0] = n
        if k == 'int':
            return '<int name="%s" type="uint8"/>' % n
        if k == 'enum':
            return '<enum name="%s" type="uint8"><validValue name="v1" val="1"/></enum>' % n
        if k in ('bundle', 'variant'):
            return '<%s name="%s">%s</%s>' % (k, n, ''.join(fld(x, d + 1) for x in m), k)
        if k == 'bitfield':
            return '<bitfield name="%s"><int name="lo" type="uint8" bitLength="3"/><int name="%s" type="uint8" bitLength="5"/></bitfield>' % (n, m[0] if m[0].lower() != 'lo' else 'hi')
        if k == 'list':
            return '<list name="%s"><element>%s</element><countPrefix>%s</countPrefix></list>' % (n, fld('element1', d + 1), fld('cnt', 9))
        return '<optional name="%s" defaultMode="exists"><field>%s</field></optional>' % (n, fld(rng.choice(['inner', n]), d + 1))

    out = []
    names = [name() for _ in range(rng.randint(1, 3))]
    fields = ''.join(fld(n) for n in names)
    out.append(fields)
    body = ''
    used.clear()
    for i in range(rng.randint(0, 2)):
        body += '<interface name="%s"><fields>%s</fields></interface>' % (name(), fld('ver', 1))
    for i in range(rng.randint(0, 2)):
        body += '<message name="%s" id="%d"><fields>%s%s</fields></message>' % (name(), rng.randint(0, 1 << 20), fld('p1', 1), fld('p2'))
    for i in range(rng.randint(0, 1)):
        body += '<frame name="%s"><size name="size"><field><int name="%s" type="uint8"/></field></size><payload name="data"/></frame>' % (name(), rng.choice(['size', 'sizeField', 'len']))
    if deep < 3:
        for i in range(rng.choice([0, 1, 1, 2])):
            n = name([x for x in POOL if x not in ('field', 'message', 'frame')])
            f, b = gen_tree(rng, X, deep + 1)
            body += '<ns name="%s"><fields>%s</fields>%s</ns>' % (n, f, b)
    return fields, body


def cases(rng, tier):
    from irv import xml as X
    for i in range(160 if tier == 'quick' else 2500):
        two = rng.random() < .4
        names = [rng.choice(['S', 'my_proto']), 'T']
        if two and rng.random() < .5:
            names = ['T', 'S']
        files = []
        for n in names if two else names[:1]:
            f, b = gen_tree(rng, X)
            files.append('<?xml version="1.0" encoding="UTF-8"?>\n<schema name="%s" id="1" endian="little" version="5" dslVersion="%d">\n<fields>%s</fields>%s\n</schema>\n' % (n, rng.choice([5, 6, 7, 8]), f, b))
        opt, top, cur = rng.choice(OPTS), rng.choice(['-', 'top', 'cc_x']), rng.choice(['-', '0'])
        names = names if two else names[:1]
        yield ('P', '%s %s %s\x1f%s' % (opt, top, cur, '\x1e'.join(files)), (opt, top, cur, names))


def mains(opt, names):
    ov = {}
    for e in (opt.split(',') if opt != '-' else []):
        if e:
            a, _, b = e.rpartition(':')
            ov[a] = b
    norm = lambda n: n.replace('.', '_').replace('-', '_').replace(' ', '_')
    out = {n: ov.get(norm(n), norm(n)) for n in names}
    if '' in ov:
        out[names[-1]] = ov['']
    return out, {n: norm(n) for n in names}


def cls(n):
    return n[:1].upper() + n[1:]


KNS = {'F': 'field', 'M': 'message', 'R': 'frame'}


def expected(path, main, orig, top):
    """everything said about the place of an element, from the names on the way to it"""
    els = path[1:]
    leaf = els[-1][0]

    def comps(main_, add, types, com):
        out = [main] if main_ else []
        for i, (k, n) in enumerate(els):
            last = i == len(els) - 1
            if last and not add:
                kn = KNS.get(k) if not com and (k != 'F' or els[i - 1][0] == 'N') else None
                if kn:
                    out.append(kn)
                break
            if k == 'N':
                if n:
                    out.append(n)
                continue
            kn = KNS.get(k) if k != 'F' or els[i - 1][0] == 'N' else None
            if kn:
                out.append(kn)
            c = cls(n)
            if k == 'I' and not n and not com:
                c = 'Message'
            s = ''
            if types and leaf == 'F':
                s = {'M': 'Fields', 'I': 'Fields', 'L': 'Members', 'R': 'Layers', 'F': '' if last else 'Members'}[k]
            elif k == 'R' and leaf != 'R' and not com:
                s = 'Layers'
            out.append(c + s + ('Common' if com else ''))
        return out
    ms = (0, 1)
    path_ = lambda m, com=False: '/'.join(comps(m, True, False, com))
    kn = KNS.get(leaf) if leaf != 'F' or els[-2][0] == 'N' else None
    nss = ([top] if top != '-' else []) + [main]
    for i, (k, n) in enumerate(els):
        if k == 'N' and n:
            nss.append(n)
        elif k in ('M', 'R') or (k == 'F' and els[i - 1][0] == 'N'):
            nss.append(KNS[k])
        elif k == 'L':
            nss.append('layer')
    return {'scope': ['::'.join(comps(m, w, True, False)) for m in ms for w in ms], 'common': ['::'.join(comps(m, w, True, True)) for m in ms for w in ms],
            'rel': [path_(m) + s for m in ms for s in ('.h', '.cpp')] + [path_(1, True) + '.h'],
            'abs': ['/out/include/%s.h' % path_(1), '/out/src/%s.cpp' % path_(1), '/out/include/%s.h' % path_(1, True), 'include/%s/%s.h' % (orig, path_(0)), '/code/include/%s/%s.h' % (orig, path_(0))],
            'full': '_'.join([n if k == 'N' else cls(n) for k, n in els if n or k != 'N']),
            'begin': ''.join('namespace %s\n{\n\n' % x for x in nss), 'end': ''.join('} // namespace %s\n\n' % x for x in reversed(nss))}


def named(path, main, orig):
    """what is placed beside the elements of a namespace"""
    own = [n for k, n in path if k == 'N' and n]
    out = []
    for m in (0, 1):
        for w in (0, 1):
            tail = ['Some'] if w else []
            M = [main] if m else []
            for sub in (['options'], [], ['frame', 'checksum']):
                out.append('::'.join(M + sub + tail))
            for sub in (['input'], ['factory'], ['dispatch'], []):
                out.append('::'.join(M + own + sub + tail))
    P = lambda *x: '/'.join(x)
    inc = ('/out/include', main)
    out += [P(*inc, 'field', 'Some.h'), P(*inc, *own, 'input', 'Some.h'), P(*inc, 'options', 'Some.h'), P(*inc, *own, 'dispatch', 'Some.h'), P(*inc, *own, 'factory', 'Some.h'), P(*inc, *own, 'Some.h'), P(*inc, *own, 'Some.h'),
            P(*inc, 'Some.h'), P('/out/src', main, 'Some.cpp'), '/out/doc/Some', P('include', orig, 'Some.h'), P('include', orig, 'options', 'Some.h'), P('include', orig, *own, 'input', 'Some.h'),
            P('include', orig, *own, 'factory', 'Some.h'), P(main, 'frame', 'layer', 'Some.h'), P(main, 'frame', 'checksum', 'Some.h')]
    return out


def judge(case, obs):
    opt, top, cur, names = case[2]
    if 'crash' in obs or 'exception' in obs:
        return ('crash', 'the generator library failed: %s' % str(obs)[:300])
    if not obs['ok']:
        return None
    mn, on = mains(opt, names)
    curn = names[0] if cur == '0' else names[-1]
    if obs['current'] != curn:
        return ('current', 'current schema %r, expected %r' % (obs['current'], curn))
    seen = {}
    for p in obs['places']:
        if 'nspath' in p:
            w = named([(x[0], x[1:]) for x in p['nspath'][1:]], mn[curn], on[curn])
            if p['named'] != w:
                d = [(a, b) for a, b in zip(p['named'], w) if a != b][0]
                return ('named', 'in namespace %s: %r, expected %r' % (p['nspath'], d[0], d[1]))
            continue
        path = [(x[0], x[1:]) for x in p['path']]
        s = path[0][1]
        if path[-1] == ('N', ''):
            continue
        w = expected(path, mn[s], on[s], top)
        for k in w:
            if p[k] != w[k]:
                return (k, '%s of %s: %r, expected %r' % (k, p['path'], p[k], w[k]))
        if len(set(mn[n] for n in names)) == len(names):
            for k, t in (('scope', p['scope'][3]), ('file', p['abs'][0])):
                if seen.setdefault((k, t), p['path']) != p['path']:
                    return ('shared', '%s and %s share the %s %s' % (seen[(k, t)], p['path'], k, t))
    return None


ASSUME = ['an element is at a place its kind may be at (a message in a namespace, a layer in a frame, a field in a namespace, message, interface, layer or field; the tree has no cycle): checked by running the real generator on the corpus only',
          'the name and the schema of an element are those of the parsed one, the overrides of the options are given to the schemas they name (GenElem::genName, GenGenerator::genCreate..., native corpus only)',
          'genClassName is proved for C15; scopes, namespace blocks and full names of nested elements are by induction over the tree (the contract of the function is applied to the parent)',
          'templates of the generators write into the file whose path they ask for']
