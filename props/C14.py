"""C14: features are available exactly from their DSL version on."""
import z3
from irv.contract import Contract, set_val
from irv.engine import StrS, schr, And, Or, Not, Implies, bl, bv, SV, Ptr, ObjS, strlit
from irv import base as B
from irv import stl
from irv.xml import schema, el
from props import intspec as S

N = 'commsdsl::parse::'
P = N + 'ParseProtocolImpl::'
SRCS = ['parse/Parse%s.cpp' % x for x in ('MessageImpl', 'InterfaceImpl', 'NamespaceImpl', 'LayerImpl', 'FrameImpl', 'SyncLayerImpl', 'CustomLayerImpl', 'BitfieldFieldImpl',
                                          'OptCondImpl', 'BundleFieldImpl', 'DataFieldImpl', 'StringFieldImpl', 'IntFieldImpl')]
BOUND = 'every gated feature of the schema language on its own and in combination with a declared version between 0 and 9 (or none), compared with the same schema without a declared version and the same schema without the feature'
WALL = 200

FEATURES = dict(FieldValueReference=2, SemanticTypeLength=2, SemanticTypeRefInheritance=2, NonUniqueSpecialsAllowed=2, FieldAlias=3, CopyFieldsFromBundle=4, OverrideType=4,
                NonIntSemanticTypeLength=5, MemberReplace=5, MultiSchema=5, InterfaceFieldReference=6, FailOnInvalidInMessage=6, SizeCompInConditionals=6,
                ExistsCheckInConditionals=6, ValidValueInStringAndData=7, ValidateMinLengthForFields=7, MessageReuse=7, InterfaceReuse=7,
                NamespaceDisplayName=7, FrameDisplayName=7, LayerDisplayName=7, SyncSuffixLayer=8)
PROPS = {4: ['validateMinLength', 'defaultValidValue', 'availableLengthLimit'],
         5: ['copyCodeFrom', 'semanticLayerType', 'checksumFrom', 'checksumUntil', 'termSuffix', 'missingOnReadFail', 'missingOnInvalid', 'reuseCode'],
         6: ['construct', 'readCond', 'validCond', 'constructAsReadCond', 'constructAsValidCond'],
         7: ['fixedValue', 'copyConstructFrom', 'copyReadCondFrom', 'copyValidCondFrom'], 8: ['seekField', 'escField']}
SINCE = {p: v for v, l in PROPS.items() for p in l}


def sup(cx, ver):
    return S.supported(cx, ver, cx.arg('this'))


def feature_ens(ver):
    return lambda cx: [('available exactly when the schema declares version %d or later, or none' % ver, cx.res == sup(cx, z3.BitVecVal(ver, 32)))]


def any_ens(cx):
    return [('available exactly when the schema declares that version or later, or none', cx.res == sup(cx, bv(cx.arg(0), 32)))]


def depr_ens(cx):
    v = S.dsl_version(cx, cx.arg('this'))
    return [('deprecated exactly when the schema declares that version or later', cx.res == And(v != 0, z3.ULE(bv(cx.arg(0), 32), v)))]


def prop_since(name):
    r = z3.BitVecVal(0, 32)
    for p, v in SINCE.items():
        r = z3.If(name == strlit(p), z3.BitVecVal(v, 32), r)
    return r


def prop_ens(cx):
    return [('a property is available exactly from its version on', cx.res == sup(cx, prop_since(cx.str_arg(0).z())))]


def bool_ens(cx):
    name = cx.str_arg(0)
    c = S.prop(cx, name.z()) if False else B.prop_count(cx.eng, cx.st0, cx.old.ptr('m_props'), name, cx.mod, cx.st1)
    from irv.stl import get_vec, node_type, get_str, idx_ptr, pair_off2
    v = get_vec(cx.eng, cx.st0, cx.old.ptr('m_props'), node_type('std::string', 'std::string'), cx.mod, 'map', 'std::string', True)
    kt = name.z()
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(cx.st0.obj(v.store).ident, kt)
    s = get_str(cx.eng, cx.st0, idx_ptr(cx.eng, cx.st0, v.store, idx).add(pair_off2(cx.eng, cx.mod, ['std::string', 'std::string']))).z()
    ver = prop_since(kt)
    must = bl(cx.arg(2))
    one = And(z3.ULE(c, 1), Implies(must, c == 1))
    used = And(c != 0, S.supported(cx, ver))
    old, new = cx.deref(1, 'bool', False), cx.deref(1, 'bool')
    return [('accepted exactly when not used or a boolean', cx.res == And(one, Implies(used, B.bool_ok(s)))),
            ('the value changes only to the one of a supported property', Implies(cx.res, new == z3.If(used, B.bool_v(s), old))), S.rejected_reports(cx)]


def unsupported(ver):
    return lambda cx: [('the declared version is older', Not(S.supported(cx, z3.BitVecVal(ver, 32))))] + B.node_ok(cx)


def ignored(prop=None):
    def ens(cx):
        if prop is None:
            return [('a feature that is not available is ignored', cx.res)]
        ok = z3.ULE(S.prop(cx, prop), 1)
        return [('a feature that is not available is ignored', cx.res == ok), S.rejected_reports(cx)]
    return ens


kids_n = z3.Function('obs_children_n', ObjS, StrS, z3.BitVecSort(64))
kids_any = z3.Function('obs_children_anon', ObjS, z3.BitVecSort(64))


def ap_children(eng, st, args, ins, mod, name):
    """a list of existing element nodes; how many is a function of the node and the requested name"""
    from irv.contract import havoc_typed
    from irv.engine import Obj
    node = eng.ident_of(st, args[1])
    many = 'ParseNamesList' in eng.prog.dem.get(name, name) or 'vector' in eng.prog.dem.get(name, name).split('(', 1)[1]
    n = eng.fresh('kids', 64) if many else kids_n(node, stl.get_str(eng, st, args[2]).z())
    st.assume(z3.ULT(n, 1 << 32))
    sid = stl.new_store(eng, st, 'children', 'xmlNode*', mod, n, z3.FreshConst(ObjS, 'kids'))
    st.wobj(sid).ext = False
    stl.set_val(eng, st, args[0], stl.VV(sid, n))
    return [(st, 'ret', None)]


def kids(cx, name):
    p = cx.old('m_node')
    return kids_n(cx.ident(Ptr(p.obj, p.off)), strlit(name))


def no_alias(cx):
    return [('aliases are rejected before they are available', cx.res == (kids(cx, 'alias') == 0)), S.rejected_reports(cx)]


def rej_prop(prop):
    """written: rejected; not written: nothing happens"""
    return lambda cx: [('a written property that is not available is rejected', cx.res == (S.prop(cx, prop) == 0)), S.rejected_reports(cx)]


def rej(fn, ver, ens, **kw):
    return Contract(fn, requires=unsupported(ver), ensures=ens, modifies=[], callable=False, label=fn + ' (before %d)' % ver, **kw).logs()


def ign_arg(fn, **kw):
    """the property named by the first argument is not available"""
    def pre(cx):
        return [('the declared version is older', Not(S.supported(cx, prop_since(cx.str_arg(0).z()))))] + B.node_ok(cx)

    def ens(cx):
        c = B.prop_count(cx.eng, cx.st0, cx.old.ptr('m_props'), cx.str_arg(0), cx.mod, cx.st1)
        return [('a property that is not available is ignored', cx.res == z3.ULE(c, 1)), S.rejected_reports(cx)]
    return Contract(fn, requires=pre, ensures=ens, modifies=[], callable=False, label=fn + ' (before its version)', **kw).logs()


def ign_child(fn, **kw):
    def pre(cx):
        return [('the declared version is older', Not(S.supported(cx, prop_since(cx.str_arg(0).z()))))] + B.node_ok(cx)
    return Contract(fn, requires=pre, ensures=lambda cx: [('an element that is not available is ignored', cx.res)], modifies=[], callable=False,
                    label=fn + ' (before its version)', **kw).logs()


def iface_ref(fn):
    def pre(cx):
        n = bv(cx.eng.str_len(cx.st0, cx.str_arg(0)), 64)
        cx.st0.assume(n != 0)
        return [('the declared version is older', Not(S.supported(cx, z3.BitVecVal(6, 32), cx.arg(2)))), ('there is a text', n != 0), ('not parsed before', And(*[bv(cx.eng.str_len(cx.st0, cx.old(m)), 64) == 0 for m in ('m_right', 'm_left', 'm_op')])), ('a node is given', Not(bl(cx.arg(1).nul)))]

    def ens(cx):
        return [('a reference to an interface field is rejected before it is available', Implies(schr(cx.str_arg(0).z(), z3.BitVecVal(0, 64)) == z3.BitVecVal(ord('%'), 8), Not(cx.res)))]
    return Contract(fn, requires=pre, ensures=ens, callable=False, label=fn + ' (before 6)').logs()


def ign(fn, ver, prop=None, modifies=(), sig=None, **kw):
    return Contract(fn, sig=sig, requires=unsupported(ver), ensures=ignored(prop), modifies=list(modifies), callable=False, label=fn + ' (before %d)' % ver, **kw).logs()


def contracts():
    out = [Contract(P + 'parseIs%sSupported' % f, ensures=feature_ens(v), modifies=[]) for f, v in FEATURES.items()]
    out += [Contract(P + 'parseIsValidCondSupportedInCompositeFields', ensures=feature_ens(7), modifies=[]),
            Contract(P + 'parseIsFeatureSupported', ensures=any_ens, modifies=[]),
            Contract(P + 'parseIsFeatureDeprecated', ensures=depr_ens, modifies=[]),
            Contract(P + 'parseIsPropertySupported', ensures=prop_ens, modifies=[]),
            Contract(N + 'ParseXmlWrap::parseGetChildren', apply_fn=ap_children, trusted=True, note='libxml2 tree walk')]
    for c in ('ParseFieldImpl', 'ParseMessageImpl', 'ParseInterfaceImpl'):
        out.append(Contract(N + c + '::parseValidateAndUpdateBoolPropValue', ensures=bool_ens, modifies=[(1, 'bool')], callable=False).logs())
    F, M, I = N + 'ParseFieldImpl::', N + 'ParseMessageImpl::', N + 'ParseInterfaceImpl::'
    out += [ign(F + 'parseUpdateCopyOverrideCodeFrom', 5, 'copyCodeFrom'),
            ign(F + 'parseUpdateValidateMinLength', 7, 'validateMinLength'),
            ign(F + 'parseCheckReplace', 5) if False else ign(M + 'parseUpdateValidateMinLength', 4, 'validateMinLength'),
            ign(M + 'parseUpdateCopyOverrideCodeFrom', 5, 'copyCodeFrom'),
            ign(M + 'parseCopyConstruct', 7, 'copyConstructFrom'), ign(M + 'parseCopyReadCond', 7, 'copyReadCondFrom'), ign(M + 'parseCopyValidCond', 7, 'copyValidCondFrom'),
            ign(N + 'ParseBitfieldFieldImpl::parseCopyValidCond', 7, 'copyValidCondFrom'), ign(N + 'ParseBundleFieldImpl::parseCopyValidCond', 7, 'copyValidCondFrom'),
            ign(N + 'ParseIntFieldImpl::parseUpdateDefaultValidValue', 4, 'defaultValidValue'),
            ign(M + 'parseCheckReuse', 7, 'reuse'), ign(I + 'parseCheckReuse', 7, 'reuse'),
            ign(N + 'ParseSyncLayerImpl::parseUpdateSeekFieldInternal', 8, 'seekField'),
            ign(N + 'ParseCustomLayerImpl::parseUpdateSemanticLayerType', 5, 'semanticLayerType'),
            ign(N + 'ParseCustomLayerImpl::parseUpdateChecksumFrom', 5, 'checksumFrom'),
            ign(N + 'ParseCustomLayerImpl::parseUpdateChecksumUntil', 5, 'checksumUntil')]
    D, T = N + 'ParseDataFieldImpl::', N + 'ParseStringFieldImpl::'
    for c in (D, T):
        out += [ign(c + 'parseUpdateDefaultValidValue', 7, 'defaultValidValue'), Contract(c + 'parseCheckValidValueAsAttr', requires=unsupported(7), ensures=ignored(), modifies=[], callable=False,
                                                                                         label=c + 'parseCheckValidValueAsAttr (before 7)').logs()]
    out += [rej(M + 'parseUpdateAliases', 3, no_alias), rej(I + 'parseUpdateAliases', 3, no_alias),
            rej(M + 'parseCopyAliases', 3, rej_prop('copyFieldsAliases')), rej(I + 'parseCopyAliases', 3, rej_prop('copyFieldsAliases')),
            ign_arg(M + 'parseUpdateSingleCondInternal'), ign_child(M + 'parseUpdateMultiCondInternal'), ign_arg(M + 'parseCopyCondInternal'),
            iface_ref(N + 'ParseOptCondExprImpl::parseCheckBool')]
    for c in ('Bitfield', 'Bundle'):
        fn = N + 'Parse%sFieldImpl::' % c
        out += [Contract(fn + 'parseUpdateMultiCondInternal', requires=unsupported(7), ensures=ignored(), modifies=[], callable=False, label=fn + 'parseUpdateMultiCondInternal (before 7)').logs(),
                Contract(fn + 'parseUpdateSingleCondInternal', requires=unsupported(7), modifies=[], callable=False, label=fn + 'parseUpdateSingleCondInternal (before 7)',
                         ensures=lambda cx: [('a feature that is not available is ignored',
                                              cx.res == z3.ULE(B.prop_count(cx.eng, cx.st0, cx.old.ptr('m_props'), cx.str_arg(0), cx.mod, cx.st1), 1)), S.rejected_reports(cx)]).logs()]
    return out


# ---------------------------------------------------------------- replay corpus: (version, mode, fields/rest with the feature, the same without it)
U8 = '<int name="%s" type="uint8"/>'
ID = '<enum name="Id" type="uint8" semanticType="messageId"><validValue name="M1" val="1"/><validValue name="M2" val="2"/></enum>'
FULL = {}


def add(name, ver, mode, w, wo=None, fields='', rest=False):
    """mode: ign (ignored) / rej (rejected)"""
    FULL[name] = (ver, mode, (fields, w) if rest else (fields + w, ''), None if wo is None else ((fields, wo) if rest else (fields + wo, '')))


def fld(name, ver, mode, w, wo=None, **kw):
    add(name, ver, mode, w, wo, **kw)


def msg(body, a='', pre=''):
    return pre + '<message name="M" id="7"%s>%s</message>' % (a, body)


def frame(sync='', a='', pay='<payload name="Data"/>', pre='', post=''):
    return '<frame name="F"%s>%s<size name="Sz"><int name="Sz" type="uint16"/></size><id name="Id"><int name="Id" type="uint8"/></id>%s%s</frame>' % (a, pre + sync, pay, post)


E1 = '<int name="E" type="uint8"><special name="V1" val="1"/><special name="V2" val="2"/></int>'
fld('value reference', 2, 'rej', '<int name="f" type="uint8" defaultValue="E.V2"/>', fields=E1)
fld('value reference in range', 2, 'rej', '<int name="f" type="uint8"><validValue value="E.V2"/></int>', fields=E1)
fld('value reference in enum', 2, 'rej', '<enum name="f" type="uint8"><validValue name="a" val="E.V2"/></enum>', fields=E1)
fld('value reference in float', 2, 'rej', '<float name="f" type="float" defaultValue="E.V2"/>', fields=E1)
fld('semantic length', 2, 'rej', '<int name="f" type="uint8" semanticType="length"/>')
fld('semantic length of bundle', 5, 'rej', '<bundle name="f" semanticType="length"><int name="a" type="uint8"/><int name="b" type="uint8" semanticType="length"/></bundle>')
fld('semantic length of bitfield', 5, 'rej', '<bitfield name="f" semanticType="length"><int name="a" type="uint8" bitLength="4"/><int name="b" type="uint8" bitLength="4" semanticType="length"/></bitfield>')
fld('non unique specials by default', 2, 'same', '<int name="f" type="uint8"><special name="s1" val="1"/><special name="s2" val="1"/></int>')
fld('non unique specials of float by default', 2, 'same', '<float name="f" type="double"><special name="s1" val="1.0"/><special name="s2" val="1.0"/></float>')
B2 = '<bundle name="b"><int name="a" type="uint8"/><int name="c" type="uint8"/></bundle>'
fld('alias in bundle', 3, 'rej', '<bundle name="f"><members><int name="a" type="uint8"/></members><alias name="x" field="$a"/></bundle>')
add('alias in message', 3, 'rej', msg('<fields><int name="a" type="uint8"/></fields><alias name="x" field="$a"/>'), rest=True)
add('alias in interface', 3, 'rej', '<interface name="I"><fields><int name="a" type="uint8"/></fields><alias name="x" field="$a"/></interface>', rest=True)
add('copy fields from bundle', 4, 'rej', msg('', ' copyFieldsFrom="b"'), fields=B2, rest=True)
add('copy fields from bundle to interface', 4, 'rej', '<interface name="I" copyFieldsFrom="b"/>', fields=B2, rest=True)
for p in ('readOverride', 'writeOverride', 'refreshOverride', 'lengthOverride', 'validOverride', 'nameOverride'):
    fld(p, 4, 'ign', '<int name="f" type="uint8" %s="replace"/>' % p, '<int name="f" type="uint8"/>')
    if p not in ('nameOverride',):
        add(p + ' of message', 4, 'ign', msg('', ' %s="extend"' % p), msg(''), rest=True)
add('message copy code', 5, 'ign', msg('', ' copyCodeFrom="M0"', '<message name="M0" id="1"/>'), msg('', '', '<message name="M0" id="1"/>'), rest=True)
fld('field copy code', 5, 'ign', '<int name="f" type="uint8" copyCodeFrom="g"/>', '<int name="f" type="uint8"/>', fields=U8 % 'g')
fld('replace member', 5, 'ign', '<bundle name="f" reuse="b"><replace><int name="a" type="uint16"/></replace></bundle>', '<bundle name="f" reuse="b"/>', fields=B2)
fld('replace bitfield member', 5, 'ign', '<bitfield name="f" reuse="bf"><replace><int name="a" type="int8" bitLength="3"/></replace></bitfield>', '<bitfield name="f" reuse="bf"/>',
    fields='<bitfield name="bf"><int name="a" type="uint8" bitLength="3"/><int name="c" type="uint8" bitLength="5"/></bitfield>')
add('replace message field', 5, 'ign', msg('<replace><int name="a" type="uint16"/></replace>', ' copyFieldsFrom="M0"', '<message name="M0" id="1"><int name="a" type="uint8"/></message>'),
    msg('', ' copyFieldsFrom="M0"', '<message name="M0" id="1"><int name="a" type="uint8"/></message>'), rest=True)
fld('wrong validateMinLength of bundle', 7, 'ign', '<bundle name="f" validateMinLength="9"><int name="a" type="uint8"/></bundle>', '<bundle name="f"><int name="a" type="uint8"/></bundle>')
fld('wrong validateMinLength of field', 7, 'ign', '<int name="f" type="uint8" validateMinLength="2"/>', '<int name="f" type="uint8"/>')
add('wrong validateMinLength of message', 4, 'ign', msg('<int name="a" type="uint8"/>', ' validateMinLength="2"'), msg('<int name="a" type="uint8"/>'), rest=True)
fld('defaultValidValue', 4, 'ign', '<int name="f" type="uint8" defaultValidValue="5"/>', '<int name="f" type="uint8"/>')
fld('defaultValidValue of string', 7, 'ign', '<string name="f" length="5" defaultValidValue="abc"/>', '<string name="f" length="5"/>')
fld('defaultValidValue of data', 7, 'ign', '<data name="f" length="5" defaultValidValue="ab cd"/>', '<data name="f" length="5"/>')
fld('validValue of string', 7, 'ign', '<string name="f" length="5" validValue="abc"/>', '<string name="f" length="5"/>')
fld('validValue child of string', 7, 'ign', '<string name="f" length="5"><validValue value="abc"/></string>', '<string name="f" length="5"/>')
fld('validValue of data', 7, 'ign', '<data name="f" length="5" validValue="abcd"/>', '<data name="f" length="5"/>')
fld('validValue child of data', 7, 'ign', '<data name="f" length="5"><validValue value="abcd"/></data>', '<data name="f" length="5"/>')
fld('availableLengthLimit', 4, 'ign', '<int name="f" type="intvar" availableLengthLimit="true"/>', '<int name="f" type="intvar"/>')
fld('termSuffix', 5, 'ign', '<list name="f"><element><int name="e" type="uint8"/></element><termSuffix><int name="t" type="uint8" defaultValue="0"/></termSuffix></list>',
    '<list name="f"><element><int name="e" type="uint8"/></element></list>')
OP = '<optional name="f" defaultMode="exists"%s><int name="i" type="uint8"/></optional>'
fld('missingOnReadFail', 5, 'ign', OP % ' missingOnReadFail="true"', OP % '')
fld('missingOnInvalid', 5, 'ign', OP % ' missingOnInvalid="true"', OP % '')
fld('reuseCode', 5, 'ign', '<int name="f" reuse="g" reuseCode="true"/>', '<int name="f" reuse="g"/>', fields=U8 % 'g')
IF = '<interface name="I"><fields><int name="a" type="uint8"/><set name="s" length="1"><bit name="b0" idx="0"/></set></fields></interface>'
for p in ('construct', 'readCond', 'validCond'):
    add(p, 6, 'ign', IF + msg('<fields><int name="x" type="uint8"/></fields>', ' %s="%%a = 5"' % p), IF + msg('<fields><int name="x" type="uint8"/></fields>'), rest=True)
    add(p + ' list', 6, 'ign', IF + msg('<fields><int name="x" type="uint8"/></fields><%s><and><cond value="%%a = 5"/><cond value="%%s.b0"/></and></%s>' % (p, p)),
        IF + msg('<fields><int name="x" type="uint8"/></fields>'), rest=True)
    cp = 'copy' + p[0].upper() + p[1:] + 'From'
    M0 = IF + '<message name="M0" id="1" %s="%%a = 5"/>' % p
    add(cp, 7, 'ign', M0 + msg('', ' %s="M0"' % cp), M0 + msg(''), rest=True)
for p in ('constructAsReadCond', 'constructAsValidCond'):
    add(p, 6, 'ign', IF + msg('', ' construct="%%a = 5" %s="true"' % p), IF + msg('', ' construct="%a = 5"'), rest=True)
    FULL[p + ' before construct'] = FULL[p]
for k in ('bundle', 'bitfield'):
    b = '<int name="a" type="uint8" bitLength="4"/><int name="c" type="uint8" bitLength="4"/>'
    fld('validCond of ' + k, 7, 'ign', '<%s name="f" validCond="$a = 1">%s</%s>' % (k, b, k), '<%s name="f">%s</%s>' % (k, b, k))
    fld('validCond list of ' + k, 7, 'ign', '<%s name="f"><validCond><or><cond value="$a = 1"/><cond value="$c = 1"/></or></validCond><members>%s</members></%s>' % (k, b, k),
        '<%s name="f"><members>%s</members></%s>' % (k, b, k))
    fld('copyValidCondFrom of ' + k, 7, 'ign', '<%s name="f" copyValidCondFrom="g">%s</%s>' % (k, b, k), '<%s name="f">%s</%s>' % (k, b, k),
        fields='<%s name="g" validCond="$a = 1">%s</%s>' % (k, b, k))
for t, d in (('int', 'type="uint8"'), ('float', 'type="float"'), ('string', 'length="3"')):
    fld('fixedValue of ' + t, 7, 'ign', '<%s name="f" %s fixedValue="true"/>' % (t, d), '<%s name="f" %s/>' % (t, d))
fld('fixedValue of enum', 7, 'ign', '<enum name="f" type="uint8" fixedValue="true"><validValue name="x" val="1"/></enum>', '<enum name="f" type="uint8"><validValue name="x" val="1"/></enum>')


def opt(cond, members, mode='exists'):
    return '<bundle name="f">%s<optional name="o" defaultMode="missing" cond="%s"><int name="i" type="uint8"/></optional></bundle>' % (members, cond.replace('<', '&lt;'))


def optmsg(cond, members=''):
    return IF + msg('<fields>%s<optional name="o" defaultMode="missing" cond="%s"><int name="i" type="uint8"/></optional></fields>' % (members, cond.replace('<', '&lt;')))


add('interface field in condition', 6, 'rej', optmsg('%a = 1'), rest=True)
add('interface bit in condition', 6, 'rej', optmsg('%s.b0'), rest=True)
add('negated interface bit in condition', 6, 'rej', optmsg('!%s.b0'), rest=True)
L = '<list name="l" count="3"><element><int name="e" type="uint8"/></element></list>'
fld('size in condition', 6, 'rej', opt('$#l = 3', '<list name="l"><element><int name="e" type="uint8"/></element><lengthPrefix><int name="p" type="uint8"/></lengthPrefix></list>'))
fld('existence in condition', 6, 'rej', opt('$?q', '<optional name="q" defaultMode="exists"><int name="i" type="uint8"/></optional>'))
add('failOnInvalid in message', 6, 'ign', msg('<int name="a" type="uint8"/>', ' failOnInvalid="true"'), msg('<int name="a" type="uint8"/>'), rest=True)
R0 = '<message name="M0" id="1" displayName="X"><int name="a" type="uint8"/></message>'
add('message reuse', 7, 'ign', msg('', ' reuse="M0"', R0), msg('', '', R0), rest=True)
I0 = '<interface name="I0"><int name="a" type="uint8"/></interface>'
add('interface reuse', 7, 'ign', I0 + '<interface name="I" reuse="I0"/>', I0 + '<interface name="I"/>', rest=True)
add('namespace display name', 7, 'ign', '<ns name="n" displayName="xx"/>', '<ns name="n"/>', rest=True)
add('frame display name', 7, 'ign', frame(a=' displayName="xx"'), frame(), fields='', rest=True)
add('layer display name', 7, 'ign', frame(pay='<payload name="Data" displayName="xx"/>'), frame(), rest=True)
SY = '<sync name="Sy"><int name="s" type="uint16" defaultValue="5"/></sync>'
add('seekField', 8, 'ign', frame('<sync name="Sy" seekField="true"><int name="s" type="uint16" defaultValue="5"/></sync>'), frame(SY), rest=True)
add('verifyBeforeRead', 8, 'ign', frame(SY, post='<sync name="Sz2" verifyBeforeRead="true" from="Sy"><int name="s" type="uint8"/></sync>'), None, rest=True)
CU = '<custom name="C" %s><int name="c" type="uint8"/></custom>'
add('semanticLayerType', 5, 'ign', '<frame name="F"><custom name="C" semanticLayerType="size"><int name="c" type="uint8"/></custom><payload name="D"/></frame>',
    '<frame name="F"><custom name="C"><int name="c" type="uint8"/></custom><payload name="D"/></frame>', rest=True)
add('custom checksum', 5, 'ign', frame(post='<custom name="C" semanticLayerType="checksum" checksumFrom="Sz"><int name="c" type="uint8"/></custom>'),
    frame(post='<custom name="C"><int name="c" type="uint8"/></custom>'), rest=True)
fld('semantic type of a reference', 2, 'inherit', '<ref name="f" field="g"/>', fields='<int name="g" type="uint8" semanticType="version"/>')


def text(f, d, var):
    if f == 'multiple schemas':
        t = schema('<int name="a" type="uint8"/>', dsl=d)
        return t + ('\x1e' + schema('<int name="b" type="uint8"/>', dsl=d, name='T') if var == 'with' else '')
    w = FULL[f][2 if var == 'with' else 3]
    return schema(w[0], w[1], dsl=d)


FULL['multiple schemas'] = (5, 'rej', ('', 'x'), None)


def dsls(rng, tier, ver):
    return [None, 0, 1, 2, 3, 4, 5, 6, 7, 8] if tier != 'quick' else sorted({0, 1, ver - 1, ver, ver + 1 if ver < 8 else 8, rng.randint(1, 8)} - {0}) + [0, None]


def cases(rng, tier):
    feats = list(FULL)
    for f in feats:
        ver, mode, w, wo = FULL[f]
        for d in dsls(rng, tier, ver):
            yield ('S', text(f, d, 'with'), (f, d, 'with'))
            if wo is not None:
                yield ('S', text(f, d, 'without'), (f, d, 'without'))
    ign = [f for f in feats if FULL[f][3] is not None and not FULL[f][2][1] and FULL[f][1] == 'ign']
    for _ in range(60 if tier == 'quick' else 600):        # several features of different versions together
        pick = rng.sample(ign, 3)
        d = rng.randint(1, 8)
        parts_w, parts_e = '', ''
        for i, f in enumerate(pick):
            ver, mode, w, wo = FULL[f]
            ren = lambda t: __import__('re').sub(r'(name|reuse|copyCodeFrom|copyValidCondFrom)="(f|g|b|bf)"', lambda m: '%s="%s%d"' % (m.group(1), m.group(2), i), t)
            parts_w += ren(w[0])
            parts_e += ren(w[0] if ver <= d else wo[0])
        yield ('S', schema(parts_w, dsl=d), (tuple(pick), d, 'mix'))
        yield ('S', schema(parts_e, dsl=d), (tuple(pick), d, 'mixref'))


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ('dsl', 'pos')}
    return [strip(v) for v in x] if isinstance(x, list) else x


def norm(o):
    """what of an observation must not depend on the declared version"""
    if not o.get('valid'):
        return None
    return strip(o['schemas'])


def judge(c, o):
    """single observation: only that rejection and reported errors go together"""
    if not o.get('valid') and not o.get('errs'):
        return ('silent', 'rejected without a reported error')
    if o.get('valid') and o.get('errs'):
        return ('noise', 'accepted although errors were reported')
    return None


def judge_all(pairs):
    tab = {c[2]: (i, o) for i, (c, o) in enumerate(pairs)}
    # texts that are equal were run once
    txt = {c[1]: o for c, o in pairs}

    def obs(f, d, var):
        return txt.get(text(f, d, var))
    out = []
    for (f, d, var), (i, o) in tab.items():
        if not isinstance(o, dict) or 'crash' in o:
            continue
        if var == 'mix':
            e = tab.get((f, d, 'mixref'))
            if e and norm(o) != norm(e[1]):
                out.append((i, 'mix', 'with declared version %s, %s do not have exactly the effect of the features available in it' % (d, ', '.join(f))))
        if var != 'with' or f not in FULL:
            continue
        ver, mode, w, wo = FULL[f]
        free = obs(f, None, 'with')
        if not d or d >= ver:
            if free is not None and norm(o) != norm(free):
                out.append((i, 'available', '%s does not have its effect with declared version %s (introduced in %d)' % (f, d, ver)))
            if wo is not None and norm(o) is not None and f not in ('constructAsReadCond before construct',):
                e = obs(f, d, 'without')
                if e is not None and norm(o) == norm(e) and not f.startswith('wrong'):
                    out.append((i, 'noeffect', '%s has no effect with declared version %s (introduced in %d)' % (f, d, ver)))
            if mode == 'rej' and norm(o) is None:
                out.append((i, 'unavailable', '%s is rejected with declared version %s (introduced in %d)' % (f, d, ver)))
        elif mode == 'rej' and norm(o) is not None:
            out.append((i, 'early', '%s is accepted with declared version %s (introduced in %d)' % (f, d, ver)))
        elif mode == 'ign' and norm(o) is not None and wo is not None:
            e = obs(f, d, 'without')
            if e is not None and norm(o) != norm(e):
                out.append((i, 'early', '%s has an effect with declared version %s (introduced in %d)' % (f, d, ver)))
        elif mode == 'same' and norm(o) is None:
            out.append((i, 'early', '%s is not accepted with declared version %s' % (f, d)))
        elif mode == 'inherit' and norm(o) == norm(free):
            out.append((i, 'early', '%s is inherited with declared version %s (introduced in %d)' % (f, d, ver)))
    return out
