"""specification helpers over characters of texts"""
import z3
from irv.engine import And, Or, Not, Implies, bl, bv, StrS, SV, Forall, schr, slen
from irv.stl import chars_obj, inst, num_ok, num_big, num_ll, num_ull, num_end

BV64 = z3.BitVecSort(64)
WS = ' \t\n\r\f\v'


def is_in(set_, ch):
    return z3.Or(*[ch == z3.BitVecVal(ord(x), 8) for x in set_])


def between(ch, a, b):
    return z3.And(z3.UGE(ch, z3.BitVecVal(ord(a), 8)), z3.ULE(ch, z3.BitVecVal(ord(b), 8)))


def all_chars(cx, sv, lo, hi, pred, tag):
    """every character of the text in [lo, hi) satisfies pred"""
    eng, st = cx.eng, cx.st1
    s = sv.z()
    lo, hi = bv(lo, 64), bv(hi, 64)
    sid = chars_obj(eng, st, sv)
    b = z3.Function('all_' + tag, StrS, BV64, BV64, z3.BoolSort())(s, lo, hi)
    w = z3.Function('wit_' + tag, StrS, BV64, BV64, BV64)(s, lo, hi)
    st.assume(z3.Or(b, z3.And(z3.ULE(lo, w), z3.ULT(w, hi), z3.Not(pred(schr(s, w))))))
    v = z3.FreshConst(BV64, 'cv')
    st.foralls.append(Forall(lo, hi, v, z3.Implies(b, pred(schr(s, v))), [], sid))
    inst(st, sid, w)
    return b


def length(cx, sv):
    return bv(cx.eng.str_len(cx.st1, sv), 64)


def number_ok(cx, sv, base, unsigned):
    """the whole text, apart from white space around it, is one number within the 64-bit range (and not negative if unsigned)"""
    s = sv.z()
    L = length(cx, sv)
    e = num_end(s, base)
    cx.st1.assume(z3.Implies(num_ok(s, base), z3.And(z3.ULE(e, L), z3.UGE(e, z3.BitVecVal(1, 64)))))
    ok = z3.And(num_ok(s, base), z3.Not(num_big(s, base, z3.IntVal(1 if unsigned else 2))), all_chars(cx, sv, e, L, lambda c: is_in(WS, c), 'blank'))
    if unsigned:
        ok = z3.And(ok, all_chars(cx, sv, 0, L, lambda c: c != z3.BitVecVal(ord('-'), 8), 'nominus'))
    return ok


# ---------------------------------------------------------------- Python oracle
def py_num(t, lo, hi):
    """number denoted by a numeric text (decimal, 0x hexadecimal, 0 octal; white space around allowed), None when it is none or out of range"""
    s = t.strip(' \t\n\r\f\v')
    neg = False
    if s[:1] in ('+', '-'):
        neg = s[0] == '-'
        s = s[1:]
    if not s or not all(c in '0123456789abcdefxABCDEFX' for c in s):
        return None
    try:
        if s[:2].lower() == '0x':
            v = int(s[2:], 16) if s[2:] and all(c in '0123456789abcdefABCDEF' for c in s[2:]) else None
        elif s[0] == '0' and len(s) > 1:
            v = int(s, 8)
        else:
            v = int(s, 10)
    except ValueError:
        return None
    if v is None:
        return None
    v = -v if neg else v
    return v if lo <= v <= hi else None


U32 = (0, 2**32 - 1)
U64 = (0, 2**64 - 1)
I64 = (-2**63, 2**63 - 1)


def num_texts(rng, n=60):
    """interesting numeric texts"""
    base = ['0', '1', '7', '8', '9', '10', '255', '256', '65535', '65536', str(2**31 - 1), str(2**31), str(2**32 - 1), str(2**32), str(2**32 + 1), str(2**32 + 5), str(2**63 - 1), str(2**63),
            str(2**64 - 1), str(2**64), str(2**64 + 1), '-1', '-0', '-5', '-' + str(2**31), '-' + str(2**63), '-' + str(2**63 + 1), '-' + str(2**64 - 3), '0x0', '0x10', '0xff', '0XFF', '0xFFFFFFFF',
            '0x100000000', '0x100000001', '0xffffffffffffffff', '0x10000000000000000', '0x', '0xg', '010', '08', '5a', '5 a', 'a5', 'five', '1.5', '1e3', '5-', '--5', '+5', '+-5', '5,6', '5;', '0b1',
            '1_000', '1 000', ' 5', '5 ', '\t5', "5'", '5u', '5L', '0x5h', '5%', '', ' ', '٣', '1/2', '99999999999999999999999999']
    out = list(base)
    for _ in range(n):
        k = rng.randint(0, 66)
        v = (1 << k) + rng.randint(-3, 3)
        t = rng.choice([str(v), hex(v) if v >= 0 else str(v), '-' + str(abs(v)), str(v) + rng.choice('abxyz.,;-+ ')])
        out.append(t)
    return out
