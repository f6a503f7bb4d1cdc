"""C17: a property with one value is given at most once, in any of three notations."""
import z3
from irv.contract import Contract, V, get_str, set_str
from irv.engine import And, Or, Not, Implies, bl, bv, SV, Ptr, StrS, ObjS, strlit
from irv import base as B
from irv.xml import schema, el
from props import intspec as S, nodespec as X, C14

N = 'commsdsl::parse::'
SRCS = ['parse/Parse%s.cpp' % x for x in ('AliasImpl', 'FrameImpl', 'InterfaceImpl', 'LayerImpl', 'MessageImpl', 'NamespaceImpl', 'SchemaImpl', 'ValueLayerImpl', 'CustomLayerImpl', 'ChecksumLayerImpl',
                                          'StringFieldImpl', 'DataFieldImpl', 'ListFieldImpl', 'IntFieldImpl', 'EnumFieldImpl', 'SetFieldImpl', 'FloatFieldImpl', 'BitfieldFieldImpl', 'BundleFieldImpl',
                                          'OptionalFieldImpl', 'VariantFieldImpl', 'RefFieldImpl')]
CLS = {k: N + 'Parse%sImpl' % k for k in ('Field', 'Message', 'Interface', 'Frame', 'Layer', 'Alias', 'Namespace', 'Schema')}


def pm(cx, i=None):
    """the map of properties: a member of *this, or an argument"""
    return cx.old.ptr('m_props') if i is None else cx.arg(i)


def cnt(cx, key, i=None):
    return B.prop_count(cx.eng, cx.st0, pm(cx, i), key if isinstance(key, SV) else SV(key), cx.mod, cx.st1)


def txt(cx, key, i=None):
    from irv import stl
    eng, st = cx.eng, cx.st1
    v = stl.get_vec(eng, st, pm(cx, i), stl.node_type('std::string', 'std::string'), cx.mod, 'map', 'std::string', True)
    kt = (key if isinstance(key, SV) else SV(key)).z()
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(st.obj(v.store).ident, kt)
    return stl.get_str(eng, st, stl.idx_ptr(eng, st, v.store, idx).add(stl.pair_off2(eng, cx.mod, ['std::string', 'std::string']))).z()


def wrap_ens(cx, k=None, m=1, s=0):
    """parseValidateSinglePropInstance of a class: s: index of the name, k: of the map"""
    c = cnt(cx, cx.str_arg(s), k)
    return [('accepted exactly when given at most once, and once when mandatory', cx.res == And(z3.ULE(c, 1), Implies(bl(cx.arg(m)), c == 1))), S.rejected_reports(cx)]


def none_ens(cx, k=None, s=0):
    return [('accepted exactly when not given', cx.res == (cnt(cx, cx.str_arg(s), k) == 0)), S.rejected_reports(cx)]


strval = z3.Function('spec_strvalue', ObjS, StrS, StrS)
strval_ok = z3.Function('spec_strvalue_ok', ObjS, StrS, z3.BoolSort())


def ap_strval(eng, st, args, ins, mod, name):
    """the text itself or the value of the text field it refers to"""
    i, s = eng.ident_of(st, args[0]), get_str(eng, st, args[1]).z()
    set_str(eng, st, args[2], SV(strval(i, s)))
    return [(st, 'ret', strval_ok(i, s))]


def str_ens(cx, k=None, s=0, v=1, must=2, deref=3):
    key = cx.str_arg(s)
    c, t = cnt(cx, key, k), txt(cx, key, k)
    one = And(z3.ULE(c, 1), Implies(bl(cx.arg(must)), c == 1))
    a, b = [get_str(cx.eng, st, cx.arg(v)).z() for st in (cx.st0, cx.st1)]
    d = bl(cx.arg(deref)) if deref is not None else z3.BoolVal(False)
    out = [('accepted only when given at most once, and once when mandatory', Implies(cx.res, one)),
           ('accepted when given properly', Implies(And(one, Or(c == 0, Not(d))), cx.res)),
           ('nothing changes when it is not given', Implies(c == 0, a == b)),
           ('the value is the written text', Implies(And(cx.res, c != 0, Not(d)), b == t)), S.rejected_reports(cx)]
    return out


def ptr_ens(cx):
    """the frame keeps a pointer to the text in its map"""
    from irv.llparse import PTR
    key = cx.str_arg(0)
    c, t = cnt(cx, key), txt(cx, key)
    one = And(z3.ULE(c, 1), Implies(bl(cx.arg(2)), c == 1))
    p0, p = [cx.eng.load(st, cx.arg(1), PTR, cx.mod) for st in (cx.st0, cx.st1)]
    return [('a text stays a text', Implies(Not(bl(p0.nul)), Not(bl(p.nul)))),
            ('accepted exactly when given at most once, and once when mandatory', cx.res == one), S.rejected_reports(cx)]


def get_ens(cx):
    key = cx.str_arg(1)
    c, t = cnt(cx, key, 0), txt(cx, key, 0)
    r, d = get_str(cx.eng, cx.st1, cx.res).z(), cx.str_arg(2).z()
    return [('the first text of the property, else the default', r == z3.If(c != 0, t, d))]


def once(fn, prop, member=None, pre=None, text=None, must=False, mods=None, label='', **kw):
    """a function of one property: what it accepts is given at most once; not given, it changes nothing"""
    cls = N + fn.split('::')[0]

    def node(cx):
        return B.node_ok_of(cx, N + 'ParseFieldImpl') if 'FieldImpl' in fn else layer_pre(cx, fn) if 'LayerImpl' in fn or 'FrameImpl' in fn else B.node_ok(cx)

    def ens(cx):
        mp = 0 if 'Alias' in fn else None
        if 'Field' in fn:
            c = S.prop(cx, prop)
        elif 'Layer' in fn:
            b = cx.view(cx.args['this'], N + 'ParseLayerImpl')
            c = B.prop_count(cx.eng, cx.st0, b.ptr('m_props'), SV(prop), cx.mod, cx.st1)
        else:
            c = cnt(cx, prop, mp)
        out = [('accepted only when given at most once', Implies(cx.res, z3.ULE(c, 1))), S.rejected_reports(cx)]
        if must == 'name':
            old = cx.old(member).z()
            out.append(('accepted only when given or known before', Implies(And(cx.res, c == 0), z3.Not(old == strlit('')))))
        elif must:
            out.append(('accepted only when given', Implies(cx.res, c == 1)))
        if member:
            a, b = cx.old(member), cx.new(member)
            a, b = [x.z() if isinstance(x, SV) else x for x in (a, b)]
            if must is not True:
                out.append(('not given, nothing changes', Implies(c == 0, a == b)))
            if text:
                t = txt(cx, prop, mp)
                out.append(('the value is the written text', Implies(And(cx.res, c != 0, *([Not(deref(t))] if text == 'ref' else [])), b == t)))
        return out
    return Contract(N + fn, requires=node, ensures=ens, modifies=mods if mods is not None else ([member] if member else []), callable=False, label=label or N + fn, **kw).logs()


def layer_pre(cx, fn):
    c = N + ('ParseLayerImpl' if 'Layer' in fn else 'ParseFrameImpl')
    b = cx.view(cx.args['this'], c)
    out = B.node_ok_of(cx, c) + [('the name is a text', Not(bl(b('m_name').nul))), ('the displayed name is a text', Not(bl(b('m_displayName').nul)))]
    if fn.endswith('parseUpdateFieldName'):
        out.append(('it has interfaces', bv(cx.old('m_interfaces').n, 64) != 0))
    return out


def deref(t):
    return t == t


found = z3.Function('spec_find', ObjS, StrS, ObjS)
found_no = z3.Function('spec_find_no', ObjS, StrS, z3.BoolSort())
units_ok = z3.Function('spec_units_ok', StrS, z3.BoolSort())
units_v = z3.Function('spec_units', StrS, z3.BitVecSort(32))


def ap_find(eng, st, args, ins, mod, name):
    i, s = eng.ident_of(st, args[0]), get_str(eng, st, args[1]).z()
    what = name.split('parseFind')[1][:5] if 'parseFind' in name else ''
    cls = CLS['Message' if what == 'Messa' else 'Field']
    return [(st, 'ret', Ptr(eng.lazy_obj(st, found(i, s), cls, 'found'), 0, nul=found_no(i, s)))]


trim = z3.Function('spec_trim', StrS, StrS)
norm_text = z3.Function('spec_normalise', StrS, StrS)
node_text = z3.Function('obs_node_text', ObjS, StrS)
TCNT = lambda m: z3.Function('mapcnt_%s' % StrS, ObjS, StrS, z3.BitVecSort(64))(m, strlit('value'))


def ap_trim(eng, st, args, ins, mod, name):
    set_str(eng, st, args[0], SV(trim(get_str(eng, st, args[0]).z())))
    return [(st, 'ret', None)]


def ap_normalise(eng, st, args, ins, mod, name):
    set_str(eng, st, args[0], SV(norm_text(get_str(eng, st, args[0]).z())))
    return [(st, 'ret', None)]


def ap_text(eng, st, args, ins, mod, name):
    set_str(eng, st, args[0], SV(node_text(eng.ident_of(st, args[1]))))
    return [(st, 'ret', None)]


def node_value(cx):
    """an element holds its value in an attribute or as its text, not both"""
    from irv import stl
    eng, st = cx.eng, cx.st1
    i = cx.ident(cx.arg(0))
    m = X.node_props(i)
    kt = strlit('value')
    c = z3.Function('mapcnt_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(m, kt)
    tr = lambda t: trim(t)
    st.assume(trim(strlit('')) == strlit(''))
    val = z3.Const('the_value_attr', StrS)
    a, b = [get_str(eng, s, cx.arg(2)).z() for s in (cx.st0, st)]
    e = strlit('')
    idx = z3.Function('mapidx_%s' % kt.sort(), ObjS, kt.sort(), z3.BitVecSort(64))(m, kt)
    n = X.props_n(m)
    sid = stl.new_store(eng, st, 'props', stl.node_type('std::string', 'std::string'), cx.mod, n, m, 'map', 'std::string', True)
    at = trim(get_str(eng, st, stl.idx_ptr(eng, st, sid, idx).add(stl.pair_off2(eng, cx.mod, ['std::string', 'std::string']))).z())
    st.assume(And(z3.ULE(c, n), z3.ULE(idx, n), (c == 0) == (idx == n)))
    A = And(c != 0, at != e)
    t = trim(node_text(i))
    T = t != e
    return [('both or neither is not accepted', cx.res == And(Not(And(A, T)), Implies(bl(cx.arg(3)), Or(A, T)))),
            ('the value is the attribute or the text', Implies(cx.res, b == z3.If(A, at, z3.If(T, norm_text(t), a)))), S.rejected_reports(cx)]


def contracts():
    W = N + 'ParseXmlWrap::'
    F, M, I, A, FR, L = [CLS[k] + '::' for k in ('Field', 'Message', 'Interface', 'Alias', 'Frame', 'Layer')]
    out = [Contract(W + 'parseValidateSinglePropInstance', ensures=B.single_prop_ens, modifies=[], callable=False).logs(),
           Contract(W + 'parseValidateNoPropInstance', ensures=lambda cx: none_ens(cx, 1, 2), modifies=[]).logs(),
           Contract(N + 'common::parseGetStringProp', ensures=get_ens, modifies=[], callable=False),
           Contract(F + 'parseValidateNoPropInstance', requires=B.node_ok, ensures=none_ens, modifies=[]).logs(),
           Contract(A + 'parseValidateSinglePropInstance', ensures=lambda cx: wrap_ens(cx, 0, 2, 1), modifies=[]).logs(),
           Contract(N + 'ParseProtocolImpl::parseStrToStringValue', apply_fn=ap_strval, trusted=True, note='C18')]
    for c in (F, M, I, FR, L):
        out.append(Contract(c + 'parseValidateSinglePropInstance', ensures=wrap_ens, modifies=[]).logs())
    for c in (F, M):
        out.append(Contract(c + 'parseValidateAndUpdateStringPropValue', ensures=str_ens, modifies=[(1, 'std::string')], callable=True).logs())
    out += [Contract(I + 'parseValidateAndUpdateStringPropValue', ensures=lambda cx: str_ens(cx, deref=None), modifies=[(1, 'std::string')]).logs(),
            Contract(A + 'parseValidateAndUpdateStringPropValue', ensures=lambda cx: str_ens(cx, 0, 1, 2, 3, 4), modifies=[(2, 'std::string')]).logs()]
    for c in (FR, L):
        out.append(Contract(c + 'parseValidateAndUpdateStringPropValue', ensures=ptr_ens, modifies=[(1, 'const std::string *')]).logs())
    for c in (F, M):
        out.append(Contract(c + 'parseValidateAndUpdateBoolPropValue', ensures=C14.bool_ens, modifies=[(1, 'bool')], trusted=True, note='C14').logs())
        k = c[len(N):]
        out += [once(k + 'parseUpdateDescription', 'description', 'm_state.m_description', mods=['m_state.m_description']),
                once(k + 'parseUpdateDisplayName', 'displayName', 'm_state.m_displayName')]
    out += [once('ParseFieldImpl::parseUpdateName', 'name', 'm_state.m_name', text=True), once('ParseMessageImpl::parseUpdateName', 'name', 'm_state.m_name', text=True, must='name'),
            once('ParseInterfaceImpl::parseUpdateName', 'name', 'm_state.m_name', text=True, must='name'), once('ParseInterfaceImpl::parseUpdateDescription', 'description', 'm_state.m_description', text=True),
            once('ParseAliasImpl::parseUpdateName', 'name', 'm_state.m_name', text=True, must='name'), once('ParseAliasImpl::parseUpdateDescription', 'description', 'm_state.m_description')]
    out += [Contract(N + 'common::parseStrToUnits', apply_fn=B.ap_conv(units_ok, units_v, 32, False), trusted=True, note='C02'),
            Contract(N + 'ParseProtocolImpl::parseFindField', apply_fn=ap_find, trusted=True, note='C12'), Contract(N + 'ParseProtocolImpl::parseFindMessage', apply_fn=ap_find, trusted=True, note='C12')]
    K = N + 'common::'
    out += [Contract(K + 'parseRemoveHeadingTrailingWhitespaces', apply_fn=ap_trim, trusted=True, note='a function of the text'),
            Contract(K + 'parseNormaliseString', apply_fn=ap_normalise, trusted=True, note='a function of the text'),
            Contract(W + 'parseGetText', apply_fn=ap_text, trusted=True, note='the text libxml2 reports'),
            Contract(W + 'parseNodeProps', apply_fn=X.ap_node_props, trusted=True, note='the attributes libxml2 reports'),
            Contract(W + 'parseNodeValue', requires=lambda cx: [('the node exists', Not(bl(cx.arg(0).nul)))], ensures=node_value, modifies=[(2, 'std::string')], callable=False).logs()]
    out += [Contract(W + 'parseGetExtraAttributes', apply_fn=X.ap_extra, trusted=True, note='the unknown attributes'), Contract(W + 'parseGetExtraChildren', apply_fn=X.ap_extra, trusted=True, note='the unknown elements')]
    for c, pre in (('Message', 'm_'), ('Interface', 'm_'), ('Frame', 'm_'), ('Namespace', 'm_'), ('Schema', 'm_'), ('Field', 'm_state.m_'), ('Layer', 'm_'), ('Alias', 'm_state.m_')):
        for w in (('Attrs',) if c not in ('Field', 'Layer', 'Alias') else ()):
            out.append(Contract('%sParse%sImpl::parseUpdateExtra%s' % (N, c, w), requires=B.node_ok, ensures=lambda cx: [('unknown attributes and elements are accepted', cx.res)], modifies=[pre + 'extra' + w], callable=False).logs())
    for p, fn, m in BOOLS:
        out.append(once(fn, p, m))
    for c, ps in OVERRIDES:
        for p in ps:
            out.append(once('%s::parseUpdate%sOverride' % (c, p.capitalize()), p + 'Override', None, mods=['m_state.m_%sOverride' % p]))
    for p, fn, m, kw in MISC:
        out.append(once(fn, p, m, **kw))
    return out


OVERRIDES = [('ParseFieldImpl', ('value', 'read', 'write', 'refresh', 'length', 'valid', 'name')), ('ParseMessageImpl', ('read', 'write', 'refresh', 'length', 'valid', 'name'))]
MISC = [('units', 'ParseIntFieldImpl::parseUpdateUnits', 'm_state.m_units', {}), ('displayDecimals', 'ParseIntFieldImpl::parseUpdateDisplayDecimals', 'm_state.m_displayDecimals', {}),
        ('displayOffset', 'ParseIntFieldImpl::parseUpdateDisplayOffset', 'm_state.m_displayOffset', {}), ('units', 'ParseFloatFieldImpl::parseUpdateUnits', 'm_state.m_units', {}),
        ('displayDecimals', 'ParseFloatFieldImpl::parseUpdateDisplayDecimals', 'm_state.m_displayDecimals', {}), ('semanticType', 'ParseFieldImpl::parseUpdateSemanticType', 'm_state.m_semanticType', {}),
        ('copyCodeFrom', 'ParseFieldImpl::parseUpdateCopyOverrideCodeFrom', 'm_state.m_copyCodeFrom', {}), ('validateMinLength', 'ParseFieldImpl::parseUpdateValidateMinLength', 'm_state.m_validateMinLength', {}),
        ('copyCodeFrom', 'ParseMessageImpl::parseUpdateCopyOverrideCodeFrom', 'm_state.m_copyCodeFrom', {}), ('validateMinLength', 'ParseMessageImpl::parseUpdateValidateMinLength', 'm_state.m_validateMinLength', {}),
        ('failOnInvalid', 'ParseMessageImpl::parseUpdateFailOnInvalid', None, dict(mods=['m_state.m_failOnInvalid'])), ('id', 'ParseMessageImpl::parseUpdateId', 'm_state.m_id', dict(must=True)), ('order', 'ParseMessageImpl::parseUpdateOrder', 'm_state.m_order', {}),
        ('sender', 'ParseMessageImpl::parseUpdateSender', 'm_state.m_sender', {}), ('hexAssign', 'ParseEnumFieldImpl::parseUpdateHexAssign', 'm_state.m_hexAssign', {}), 
        ('encoding', 'ParseStringFieldImpl::parseUpdateEncoding', 'm_state.m_encoding', {}), ('missingOnReadFail', 'ParseOptionalFieldImpl::parseUpdateMissingOnReadFail', 'm_state.m_missingOnReadFail', {}),
        ('missingOnInvalid', 'ParseOptionalFieldImpl::parseUpdateMissingOnInvalid', 'm_state.m_missingOnInvalid', {}), ('defaultMode', 'ParseOptionalFieldImpl::parseUpdateMode', 'm_state.m_mode', {}),
        ('endian', 'ParseBitfieldFieldImpl::parseUpdateEndian', None, dict(mods=['m_endian'])),
        ('zeroTermSuffix', 'ParseStringFieldImpl::parseUpdateZeroTerm', 'm_state.m_haxZeroSuffix', {}), ('nonUniqueAllowed', 'ParseSetFieldImpl::parseUpdateNonUniqueAllowed', 'm_state.m_nonUniqueAllowed', {}),
        ('alg', 'ParseChecksumLayerImpl::parseUpdateAlg', None, dict(mods=['m_alg', 'm_algName'], must=True)), ('verifyBeforeRead', 'ParseChecksumLayerImpl::parseUpdateVerifyBeforeRead', 'm_verifyBeforeRead', {}),
        ('from', 'ParseChecksumLayerImpl::parseUpdateFrom', None, dict(mods=['m_from'])), ('until', 'ParseChecksumLayerImpl::parseUpdateUntil', None, dict(mods=['m_until'])),
        ('pseudo', 'ParseValueLayerImpl::parseUpdatePseudo', 'm_pseudo', {}), ('interfaceFieldName', 'ParseValueLayerImpl::parseUpdateFieldName', None, dict(mods=['m_fieldName'], must=True)),
        ('idReplacement', 'ParseCustomLayerImpl::parseUpdateIdReplacement', None, dict(mods=['m_sematicLayerType'])), ('semanticLayerType', 'ParseCustomLayerImpl::parseUpdateSemanticLayerType', None, dict(mods=['m_sematicLayerType'])),
        ('checksumFrom', 'ParseCustomLayerImpl::parseUpdateChecksumFrom', None, dict(mods=['m_checksumFromLayer'])), ('checksumUntil', 'ParseCustomLayerImpl::parseUpdateChecksumUntil', None, dict(mods=['m_checksumUntilLayer'])),
        ('displayName', 'ParseFrameImpl::parseUpdateDisplayName', None, dict(mods=['m_displayName'])), ('description', 'ParseFrameImpl::parseUpdateDescription', None, dict(mods=['m_description'])),
        ('displayName', 'ParseLayerImpl::parseUpdateDisplayName', None, dict(mods=['m_displayName'])), ('description', 'ParseLayerImpl::parseUpdateDescription', None, dict(mods=['m_description'])),
        ('name', 'ParseFrameImpl::parseUpdateName', None, dict(mods=['m_name'])), ('name', 'ParseLayerImpl::parseUpdateName', None, dict(mods=['m_name']))]


BOOLS = [('pseudo', 'ParseFieldImpl::parseUpdatePseudo', 'm_state.m_pseudo'), ('fixedValue', 'ParseFieldImpl::parseUpdateFixedValue', 'm_state.m_fixedValue'),
         ('customizable', 'ParseFieldImpl::parseUpdateCustomizable', 'm_state.m_customizable'), ('failOnInvalid', 'ParseFieldImpl::parseUpdateFailOnInvalid', 'm_state.m_failOnInvalid'),
         ('forceGen', 'ParseFieldImpl::parseUpdateForceGen', 'm_state.m_forceGen'), ('customizable', 'ParseMessageImpl::parseUpdateCustomizable', 'm_state.m_customizable')]
BOOLS += [('availableLengthLimit', 'Parse%sFieldImpl::parseUpdateAvailableLengthLimit' % k, 'm_state.m_availableLengthLimit') for k in ('Int', 'Enum', 'Set')]
BOOLS += [('validCheckVersion', 'Parse%sFieldImpl::parseUpdateValidCheckVersion' % k, 'm_state.m_validCheckVersion') for k in ('Int', 'Enum', 'Set', 'Float')]
BOOLS += [('nonUniqueSpecialsAllowed', 'Parse%sFieldImpl::parseUpdateNonUniqueSpecialsAllowed' % k, 'm_state.m_nonUniqueSpecialsAllowed') for k in ('Int', 'Float')]


# ------------------------------------------------------------------ the real parser: one property, three notations
BOOL = ('true', 'false')
OVR = ('replace', 'extend')
COMMON = dict(name=('x2', 'x3'), displayName=('A', 'B'), description=('A', 'B'), sinceVersion=('1', '2'), deprecated=('4', '5'), removed=BOOL + ({'deprecated': '4'},), pseudo=BOOL, fixedValue=BOOL,
              customizable=BOOL, failOnInvalid=BOOL, forceGen=BOOL, copyCodeFrom=('r1', 'r2'), reuseCode=BOOL + ({'reuse': 'r1'},), reuse=('r1', 'r2'))
COMMON.update({k + 'Override': OVR for k in ('value', 'read', 'write', 'refresh', 'length', 'valid', 'name')})
ENDIAN = ('big', 'little')
LEN = {'type': None, 'defaultValue': None}
G1 = '<int name="i1" type="uint8"/><int name="i2" type="int16"/>'
INNER = '<int name="m1" type="uint8" bitLength="4"/><int name="m2" type="uint8" bitLength="4"/>'
VALS = '<validValue name="A" val="1"/><validValue name="B" val="2"/>'
BITS = '<bit name="A" idx="0"/><bit name="B" idx="1"/>'
in_msg = lambda t: ('', '<message name="M" id="1"><fields>%s%s</fields></message>' % ('<int name="s1" type="uint8"/><int name="s2" type="uint8"/>', t))
top = lambda t: ('', t)
KINDS = {}


def kind(key, tag, attrs, props, mand, body='', wrap=in_msg, reuse=True, needs=''):
    KINDS[key] = dict(tag=tag, attrs=attrs, props=props, mand=mand, body=body, wrap=wrap, needs=needs)


def field(key, attrs, props, mand, body=''):
    rs = ''.join('<%s%s>%s</%s>' % (key, ''.join(' %s="%s"' % x for x in dict(attrs, name=n).items()), body, key) for n in ('r1', 'r2'))
    kind(key, key, dict(attrs, name='x2'), dict(COMMON, reuse=('r1', 'r2', dict.fromkeys(attrs), ''), reuseCode=BOOL + (dict(dict.fromkeys(attrs), reuse='r1'), ''), **props), (['name'] if key != 'ref' else []) + mand, body, in_msg, True, rs)


LIM = dict(availableLengthLimit=BOOL, validCheckVersion=BOOL)
field('int', {'type': 'uint32'}, dict(LIM, type=('uint16', 'int32'), endian=ENDIAN, length=('3', '2'), serOffset=('1', '2'), defaultValue=('1', '2'), scaling=('1/2', '2/3'), units=('mm', 'cm'), displayDecimals=('1', '2'),
                                   displayOffset=('1', '2'), nonUniqueSpecialsAllowed=BOOL, signExt=BOOL + ({'type': 'int32', 'length': '3'},), semanticType=('version', 'length'), validateMinLength=('4', '4')), ['type'])
field('enum', {'type': 'uint16'}, dict(LIM, type=('uint8', 'int32'), endian=ENDIAN, length=('1', '2'), defaultValue=('1', '2'), nonUniqueAllowed=BOOL, hexAssign=BOOL, semanticType=('messageId', 'none')), ['type'], VALS)
field('set', {'length': '1'}, dict(LIM, type=('uint8', 'uint16', {'length': None}), endian=ENDIAN, length=('1', '2'), defaultValue=BOOL, reservedValue=BOOL, nonUniqueAllowed=BOOL), ['length'], BITS)
field('float', {'type': 'float'}, dict(type=('float', 'double'), endian=ENDIAN, defaultValue=('1', '2'), validCheckVersion=BOOL, units=('mm', 'cm'), displayDecimals=('1', '2'), nonUniqueSpecialsAllowed=BOOL, validFullRange=BOOL), ['type'])
field('string', {}, dict(defaultValue=('a', 'b'), length=('3', '4'), lengthPrefix=('i1', 'i2'), zeroTermSuffix=BOOL, encoding=('a', 'b')), [])
field('data', {}, dict(defaultValue=('ab', 'cd'), length=('3', '4'), lengthPrefix=('i1', 'i2')), [])
field('list', {'element': 'i1'}, dict(element=('i1', 'i2'), count=('3', '4'), countPrefix=('i1', 'i2'), lengthPrefix=('i1', 'i2'), elemLengthPrefix=('i1', 'i2'), termSuffix=('i1', 'i2'), elemFixedLength=BOOL), ['element'])
field('bitfield', {}, dict(endian=ENDIAN, semanticType=('length', 'none'), validCond=('$m1 = 1', '$m2 = 1'), copyValidCondFrom=('r1', 'r2')), [], '<members>%s</members>' % INNER)
field('bundle', {}, dict(reuseAliases=BOOL + ({'reuse': 'r1'}, ''), semanticType=('length', 'none'), validCond=('$m1 = 1', '$m2 = 1'), copyValidCondFrom=('r1', 'r2')), [], '<members>%s</members>' % INNER.replace(' bitLength="4"', ''))
field('ref', {'field': 'i1'}, dict(field=('i1', 'i2'), semanticType=('version', 'length')), ['field'])
field('optional', {'field': 'i1'}, dict(field=('i1', 'i2'), defaultMode=('missing', 'exists'), cond=('$s1 = 1', '$s2 = 1'), missingOnReadFail=BOOL, missingOnInvalid=BOOL), ['field'])
field('variant', {}, dict(defaultMember=('m1', 'm2')), [], '<members>%s</members>' % INNER.replace(' bitLength="4"', ''))
kind('member', 'int', {'name': 'x2', 'type': 'uint8', 'bitLength': '4'}, dict(bitLength=('4', '4')), ['name'], '', lambda t: ('', '<message name="M" id="1"><fields><bitfield name="B"><members>%s<int name="m2" type="uint8" bitLength="4"/></members></bitfield></fields></message>' % t))
MF = '<fields><int name="m1" type="uint8"/><int name="m2" type="uint8"/></fields>'
kind('message', 'message', {'name': 'x2', 'id': '1'}, dict({k: v for k, v in COMMON.items() if k in ('name', 'displayName', 'description', 'sinceVersion', 'deprecated', 'removed', 'customizable', 'failOnInvalid') or k.endswith('Override') and k != 'valueOverride'},
     id=('7', '8'), order=('1', '2'), platforms=('+P1', '+P2'), sender=('client', 'server'), validateMinLength=('2', '2'), copyCodeFrom=('r1', 'r2'), copyFieldsFrom=('r1', 'r2', {}, ''), copyFieldsAliases=BOOL + ({'copyFieldsFrom': 'r1'}, ''),
     reuse=('r1', 'r2', {}, ''), reuseCode=BOOL + ({'reuse': 'r1'}, ''), reuseAliases=BOOL + ({'reuse': 'r1'}, ''), construct=('%f1 = 1', '%f2 = 1'), readCond=('%f1 = 1', '%f2 = 1'), validCond=('$m1 = 1', '$m2 = 1'),
     constructAsReadCond=BOOL + ({'construct': '%f1 = 1'},), constructAsValidCond=BOOL + ({'construct': '%f1 = 1'},), copyConstructFrom=('r1', 'r2'), copyReadCondFrom=('r1', 'r2'), copyValidCondFrom=('r1', 'r2')),
     ['name', 'id'], MF, top, True,
     '<platforms><platform name="P1"/><platform name="P2"/></platforms><interface name="I"><fields><int name="f1" type="uint8"/><int name="f2" type="uint8"/></fields></interface>' +
     ''.join('<message name="r%d" id="10%d" readCond="%%f%d = 1" validCond="$m%d = 1" construct="%%f%d = 1"><fields><int name="m1" type="uint8"/><int name="m2" type="uint8"/><int name="r%dx" type="uint8"/></fields><alias name="a" field="$r%dx"/></message>' % ((i,) * 7) for i in (1, 2)))
kind('interface', 'interface', {'name': 'x2'}, dict(name=('x2', 'x3'), description=('A', 'B'), copyFieldsFrom=('r1', 'r2', {}, ''), copyFieldsAliases=BOOL + ({'copyFieldsFrom': 'r1'}, ''), reuse=('r1', 'r2', {}, ''), reuseCode=BOOL + ({'reuse': 'r1'}, ''), reuseAliases=BOOL + ({'reuse': 'r1'}, '')),
     ['name'], MF, top, True, ''.join('<interface name="r%d"><fields><int name="m%dx" type="uint8"/></fields><alias name="a" field="$m%dx"/></interface>' % ((i,) * 3) for i in (1, 2)))
kind('frame', 'frame', {'name': 'x2'}, dict(name=('x2', 'x3'), displayName=('A', 'B'), description=('A', 'B')), ['name'], '<layers><payload name="p"/></layers>', top)
PAY = '<payload name="p"/>'
lay = lambda pre='', post='': (lambda t: ('', '<frame name="F"><layers>%s%s%s</layers></frame>' % (pre, t, post)))
LAYC = dict(name=('x2', 'x3'), displayName=('A', 'B'), description=('A', 'B'))
FI = '<fields><int name="i1" type="uint8"/><int name="i2" type="int16"/><enum name="e1" type="uint8" semanticType="messageId">%s</enum><enum name="e2" type="uint16" semanticType="messageId">%s</enum></fields>' % (VALS, VALS)
for t, f in (('size', 'i'), ('id', 'e'), ('sync', 'i')):
    kind(t, t, {'name': 'x2', 'field': f + '1'}, dict(LAYC, field=(f + '1', f + '2'), **(dict(verifyBeforeRead=('true', '1', {'from': 's'}), seekField=('true', '1', {'from': 's'})) if t == 'sync' else {})), ['name', 'field'], '',
         lay('<size name="s" field="i1"/>' + PAY, '') if t == 'sync' else lay('', PAY))
kind('payload', 'payload', {'name': 'x2'}, LAYC, ['name'], '', lay())
kind('checksum', 'checksum', {'name': 'x2', 'field': 'i1', 'alg': 'sum', 'from': 's'}, dict(LAYC, **{'field': ('i1', 'i2'), 'alg': ('sum', 'xor'), 'from': ('s', 'z'), 'verifyBeforeRead': BOOL}), ['name', 'field', 'alg'], '', lay('<size name="s" field="i1"/><sync name="z" field="i1"/>', PAY) if False else
     (lambda t: ('', '<frame name="F"><layers><sync name="z" field="i1"/><size name="s" field="i1"/><payload name="p"/>%s</layers></frame>' % t)))
kind('checksum before', 'checksum', {'name': 'x2', 'field': 'i1', 'alg': 'sum', 'until': 'p'}, {'until': ('p', 'p'), 'field': ('i1', 'i2')}, ['name', 'field', 'alg'], '', lay('', '<size name="s" field="i1"/>' + PAY))
kind('checksum custom', 'checksum', {'name': 'x2', 'field': 'i1', 'alg': 'custom', 'algName': 'g', 'until': 'p'}, {'algName': ('g', 'h')}, ['algName'], '', lay('', PAY))
kind('value', 'value', {'name': 'x2', 'field': 'i1', 'interfaces': 'I1', 'interfaceFieldName': 'f1'}, dict(LAYC, field=('i1', 'i2'), interfaces=('I1', 'I2'), interfaceFieldName=('f1', 'f2'), pseudo=BOOL), ['name', 'field', 'interfaceFieldName'], '', lay('', PAY), True,
     ''.join('<interface name="I%d"><fields><int name="f1" type="uint8"/><int name="f2" type="uint8"/></fields></interface>' % i for i in (1, 2)))
kind('custom', 'custom', {'name': 'x2', 'field': 'i1'}, dict(LAYC, field=('i1', 'i2'), semanticLayerType=('size', 'sync')), ['name', 'field'], '', lay('', PAY))
kind('custom id', 'custom', {'name': 'x2', 'field': 'e1'}, dict(idReplacement=BOOL, semanticLayerType=('id', 'custom')), [], '', lay('', PAY))
kind('custom checksum', 'custom', {'name': 'x2', 'field': 'i1', 'semanticLayerType': 'checksum', 'checksumFrom': 's'}, dict(checksumFrom=('s', 'z')), [], '', (lambda t: ('', '<frame name="F"><layers><sync name="z" field="i1"/><size name="s" field="i1"/><payload name="p"/>%s</layers></frame>' % t)))
kind('alias', 'alias', {'name': 'x2', 'field': '$m1'}, dict(name=('x2', 'x3'), description=('A', 'B'), field=('$m1', '$m2')), ['name', 'field'], '', lambda t: ('', '<message name="M" id="1">%s%s</message>' % (MF, t)))
VV = dict(name=('A', 'B'), displayName=('A', 'B'), description=('A', 'B'), sinceVersion=('1', '2'), deprecated=('4', '5'))
kind('validValue', 'validValue', {'name': 'A', 'val': '1'}, dict(VV, val=('1', '2')), ['name', 'val'], '', lambda t: in_msg('<enum name="x2" type="uint8">%s</enum>' % t))
kind('special', 'special', {'name': 'A', 'val': '1'}, dict(VV, val=('1', '2')), ['name', 'val'], '', lambda t: in_msg('<int name="x2" type="uint8">%s</int>' % t))
kind('special of float', 'special', {'name': 'A', 'val': '1'}, dict(VV, val=('1', '2')), ['name', 'val'], '', lambda t: in_msg('<float name="x2" type="float">%s</float>' % t))
kind('bit', 'bit', {'name': 'A', 'idx': '1'}, dict(VV, idx=('1', '2'), reserved=BOOL, reservedValue=BOOL, defaultValue=BOOL), ['name', 'idx'], '', lambda t: in_msg('<set name="x2" length="1">%s</set>' % t))
kind('ns', 'ns', {'name': 'N'}, dict(name=('N', 'O'), displayName=('A', 'B'), description=('A', 'B')), ['name'], '<message name="M" id="1"/>', top)
CONDS = ('validCond', 'readCond', 'construct')       # the element of a condition may hold nested conditions: its text is not a value
NOTE = ('attr', 'value', 'text')


def texts(k, p, uses, over):
    """the element with the property written in the given notations, and the rest as it needs"""
    d = KINDS[k]
    v = d['props'].get(p, ('', ''))
    a = dict(d['attrs'])
    body = d['body']
    if len(v) > 2:
        a.update(v[2])
    if len(v) > 3 and isinstance(v[3], str):
        body = v[3]
    if len(v) > 3 and v[3] is True:
        pass
    a.pop(p, None)
    kids = ''
    for how, val in uses:
        if how == 'attr':
            a[p] = val
        elif how == 'value':
            kids += el(p, {'value': val})
        elif how == 'text':
            kids += '<%s> %s </%s>' % (p, __import__('irv.xml', fromlist=['esc']).esc(val), p)
        else:
            kids += '<%s value="%s">%s</%s>' % (p, val, val, p)
    a.update(over[0])
    if over[2]:
        kids = body + kids + over[1]
        body = ''
    t = '<%s%s>%s</%s>' % (d['tag'], ''.join(' %s="%s"' % (n, x) for n, x in a.items() if x is not None), kids + over[1] + body if not over[2] else kids, d['tag'])
    fields, rest = d['wrap'](t)
    fi = FI if 'layers' in rest else '<fields>%s%s</fields>' % (G1, d['needs'] if d['tag'] in FIELDS and k in FIELDS else '')
    return schema('', fi + (d['needs'] if k not in FIELDS else '') + rest, version='6')


FIELDS = ('int', 'enum', 'set', 'float', 'string', 'data', 'list', 'bitfield', 'bundle', 'ref', 'optional', 'variant')
PLAIN = ({}, '', False)
UNKNOWN = [({'zzz': '1'}, '', False), ({}, '<zzz/>', False), ({}, '<zzz value="3">', False), ({}, '<zzz name="q"><name value="q"/><type value="int8"/><field>q</field></zzz>', False), ({'Name': 'q', 'zz': ''}, '<zz>q</zz>', True), ({}, '<meta><name value="q"/></meta>', False)]
UNKNOWN[2] = ({}, '<zzz value="3"/>', True)


def cases(rng, tier):
    for k, d in KINDS.items():
        for p, v in d['props'].items():
            for i, val in enumerate(v[:2]):
                for n in NOTE[:2] if p in CONDS else NOTE:
                    yield ('S', texts(k, p, [(n, val)], PLAIN), (k, p, 'one', i, n))
                yield ('S', texts(k, p, [('both', val)], PLAIN), (k, p, 'twice', i, ''))
            for a, b in (('attr', 'value'), ('attr', 'text'), ('value', 'value'), ('value', 'text'), ('text', 'value'), ('text', 'text')):
                for x, y in ((0, 0), (0, 1)):
                    yield ('S', texts(k, p, [(a, v[x]), (b, v[y])], PLAIN), (k, p, 'twice', (x, y), a + b))
            if p in d['mand']:
                yield ('S', texts(k, p, [], PLAIN), (k, p, 'none', 0, ''))
        yield ('S', texts(k, '', [], PLAIN), (k, '', 'one', 0, ''))
        for i, u in enumerate(UNKNOWN):
            if k == 'bundle' and i == 5:
                pass
            yield ('S', texts(k, '', [], u), (k, '', 'unknown', i, ''))


def norm(o):
    """the definitions, without what is kept of unknown attributes and elements"""
    def strip(x):
        if isinstance(x, dict):
            return {a: strip(b) for a, b in x.items() if a not in ('attrs', 'pos')}
        return [strip(y) for y in x] if isinstance(x, list) else x
    return strip(o['schemas']) if o.get('valid') else None


def judge(c, o):
    if not isinstance(o, dict) or 'crash' in o:
        return None
    k, p, what = c[2][:3]
    if not o.get('valid') and not o.get('errs'):
        return ('silent', 'rejected without a reported error: ' + c[1][c[1].find('?>'):])
    if what == 'one' and not o.get('valid'):
        return ('rejected', '%s of %s given once as %s is rejected: %s' % (p, k, c[2][4], (o.get('msgs') or ['?'])[0]))
    if what == 'twice' and o.get('valid'):
        return ('twice', '%s of %s is accepted when given twice (%s)' % (p, k, c[2][4] or 'value and text'))
    if what == 'none' and o.get('valid'):
        return ('none', '%s without %s is accepted' % (k, p))
    return None


def judge_all(pairs):
    out, ref = [], {}
    for i, (c, o) in enumerate(pairs):
        if isinstance(c[2], tuple) and c[2][2] in ('one', 'unknown') and isinstance(o, dict) and 'crash' not in o:
            k, p, what, v, n = c[2]
            key = (k, p, v if what == 'one' else 0)
            if key not in ref:
                ref[key] = norm(o)
            elif norm(o) != ref[key]:
                out.append((i, 'notation' if what == 'one' else 'unknown', '%s %s: %s' % (k, p, 'the three notations do not have the same effect' if what == 'one' else 'an unknown attribute or element changed the definition (%s)' % (UNKNOWN[v],))))
    return out


BOUND = 'every property of every kind of element in the three notations and all pairs of them, without it when it is mandatory, and with unknown attributes and elements'
ASSUME = ['the attributes and child elements of a node are those libxml2 reports']
