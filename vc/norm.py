"""Canonical forms for z3 terms: Laurent polynomials over atoms, with the
defining identities of sqrt, exp, log, sin and cos used as rewrite rules.

The rules hold wherever the terms are defined (non-zero divisors, arguments
in the domain); ``terms.py`` guards every value by its NaN / infinity flags
outside that domain.
"""
from __future__ import annotations

from fractions import Fraction

import z3

from . import terms as T

ATOM = {}            # id -> expr (kept alive)
_canon = {}
_poly = {}
_keep = []
MAX_TERMS = 3000


class TooBig(Exception):
    pass


def atom_id(e):
    i = e.get_id()
    if i not in ATOM:
        ATOM[i] = e
    return i


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(e, k=1):
    return {((atom_id(e), k),): Fraction(1)}


def p_add(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) + e
        if v:
            d[k] = v
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > MAX_TERMS * 4:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    r = reduce_special(r)
    if len(r) > MAX_TERMS:
        raise TooBig()
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_pow(a, k):
    if k < 0:
        return p_pow(p_inv(a), -k)
    r = p_const(1)
    for _ in range(k):
        r = p_mul(r, a)
    return r


def p_isconst(a):
    if not a:
        return Fraction(0)
    if len(a) == 1 and () in a:
        return a[()]
    return None


def kindname(e):
    return e.decl().name() if z3.is_app(e) and e.decl().kind() == \
        z3.Z3_OP_UNINTERPRETED else None


_mirror = {}


def mirrored(e):
    """atan2(-y, x) for atan2(y, x) when -y has the canonical sign."""
    r = _mirror.get(e.get_id(), 0)
    if r == 0:
        s, y = sign_split(poly(e.arg(0)))
        r = None
        if s < 0:
            r = canon_app(e.decl()(to_z3(y), e.arg(1)))
            _keep.append(r)
        _keep.append(e)
        _mirror[e.get_id()] = r
    return r


def reduce_special(p):
    """Apply sqrt(t)^2 = t, cos^2 = 1 - sin^2, abs^2, ind^2 = ind."""
    again = True
    guard = 0
    while again:
        again = False
        guard += 1
        if guard > 40:
            raise TooBig()
        for m in list(p.keys()):
            sq = []
            if _zero_of and vanishes(m):
                p.pop(m)
                continue
            for (i, k) in m:
                e = ATOM[i]
                if k < 0 and i in _inv:
                    c = p.pop(m)
                    rest = m_mul(m, ((i, -k),))
                    p = p_add(p, p_mul({rest: c}, p_pow(_inv[i], -k)))
                    again = True
                    break
                n = kindname(e)
                if n == "sqrt":
                    sq.append((i, k, e))
                    if k >= 2 or k <= -1:
                        c = p.pop(m)
                        h = k // 2            # floor
                        rest = m_mul(m, ((i, -2 * h),))
                        q = p_pow(poly(e.arg(0)), h)
                        p = p_add(p, p_mul({rest: c}, q))
                        again = True
                        break
                elif n == "cos" and k >= 2:
                    c = p.pop(m)
                    s = p_atom(T.f_sin(e.arg(0)))
                    rest = m_mul(m, ((i, -2),))
                    q = p_add(p_const(1), p_mul(s, s), -1)
                    p = p_add(p, p_mul({rest: c}, q))
                    again = True
                    break
                elif n == "atan2" and k >= 2 and mirrored(e) is not None:
                    # atan2(-y, x)^2 = atan2(y, x)^2
                    c = p.pop(m)
                    h = k // 2 * 2
                    rest = m_mul(m_mul(m, ((i, -h),)),
                                 ((atom_id(mirrored(e)), h),))
                    p = p_add(p, {rest: c})
                    again = True
                    break
                elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                    if is_ind(e):
                        if k >= 2:
                            c = p.pop(m)
                            rest = m_mul(m, ((i, 1 - k),))
                            p = p_add(p, {rest: c})
                            again = True
                            break
                    elif is_abs(e) and (k >= 2 or k <= -2):
                        c = p.pop(m)
                        h = (abs(k) // 2) * (1 if k > 0 else -1)
                        rest = m_mul(m, ((i, -2 * h),))
                        q = p_pow(poly(e.arg(1)), 2 * h)
                        p = p_add(p, p_mul({rest: c}, q))
                        again = True
                        break
            if again:
                break
    return p


def vanishes(m):
    """x^k [x = 0] and sqrt(q)^k [q = 0] with k > 0."""
    for i, _ in m:
        z = _zero_of.get(i)
        if z is None:
            continue
        if type(z) is dict:
            for j, k in m:
                if k > 0 and kindname(ATOM[j]) == "sqrt":
                    q = poly(ATOM[j].arg(0))
                    if len(q) == len(z) and q and p_scale(
                            q, 1 / q[leading(q)]) == z:
                        return True
        elif any(j == z and k > 0 for j, k in m):
            return True
    return False


def is_ind(e):
    return T.is_one(e.arg(1)) and T.is_zero(e.arg(2)) if e.sort() == T.R \
        else False


def is_abs(e):
    """If(x >= 0, x, -x) over canonical terms."""
    c, a, b = e.children()
    if e.sort() != T.R:
        return False
    if a.get_id() in _abs_ids.get(e.get_id(), ()):
        return True
    return False


_abs_ids = {}


def mk_abs(p):
    """abs of a polynomial, as a polynomial."""
    c = p_isconst(p)
    if c is not None:
        return p_const(abs(c))
    # pull the numeric content and sign
    lead = leading(p)
    lc = p[lead]
    q = p_scale(p, 1 / lc)
    mono, rest = common(q)
    out = p_const(abs(lc))
    keep = ()
    for (i, k) in mono:
        e = ATOM[i]
        if k % 2 == 0 or T.is_nonneg(e):
            out = p_mul(out, {((i, k),): Fraction(1)})
        else:
            keep = m_mul(keep, ((i, k),))
    rest = p_mul(rest, {keep: Fraction(1)}) if keep else rest
    if p_isconst(rest) is not None:
        return p_scale(out, abs(p_isconst(rest)))
    if poly_nonneg(rest):
        return p_mul(out, rest)
    l2 = leading(rest)
    if rest[l2] < 0:
        rest = p_scale(rest, -1)
    e = to_z3(rest)
    a = z3.If(e >= 0, e, -e)
    ATOM[a.get_id()] = a
    _abs_ids[a.get_id()] = (e.get_id(),)
    _poly[e.get_id()] = rest
    _canon[a.get_id()] = a
    _keep.append(a)
    return p_mul(out, p_atom(a))


def poly_nonneg(p):
    for m, c in p.items():
        if c < 0:
            return False
        for (i, k) in m:
            if k % 2 and not T.is_nonneg(ATOM[i]):
                return False
    return True


def skey(i):
    return ATOM[i].sexpr()


_sk = {}


def sort_key(i):
    if i not in _sk:
        e = ATOM[i]
        _sk[i] = (str(e.decl().name()), i)
    return _sk[i]


def leading(p):
    return max(p.keys(), key=lambda m: (sum(abs(k) for _, k in m), m))


def common(p):
    """Greatest common monomial (with min exponents) and the cofactor."""
    it = iter(p.keys())
    first = dict(next(it))
    ks = set(first)
    rest = [dict(m) for m in it]
    for m in rest:
        ks |= set(m)
    mono = {}
    allm = [first] + rest
    for k in ks:
        lo = min(m.get(k, 0) for m in allm)
        if lo:
            mono[k] = lo
    mono = tuple(sorted(mono.items()))
    if not mono:
        return (), p
    invm = tuple((k, -e) for k, e in mono)
    return mono, {m_mul(m, invm): c for m, c in p.items()}


def p_inv(p):
    if not p:
        return p_atom(z3.RealVal(1) / z3.RealVal(0))
    lead = leading(p)
    lc = p[lead]
    q = p_scale(p, 1 / lc)
    mono, rest = common(q)
    out = {tuple((k, -e) for k, e in mono): 1 / lc}
    if len(rest) == 1 and () in rest:
        return reduce_special(out)
    # normalise the sign/scale of the cofactor
    l2 = leading(rest)
    s = rest[l2]
    rest = p_scale(rest, 1 / s)
    out = p_scale(out, 1 / s)
    # 1/sqrt-like single atom cannot occur here (handled as monomials)
    d = to_z3(rest)
    a = z3.RealVal(1) / d
    ATOM[a.get_id()] = a
    _inv[a.get_id()] = rest
    _canon[a.get_id()] = a
    return reduce_special(p_mul(out, p_atom(a)))


_inv = {}


def p_sqrt(p):
    c = p_isconst(p)
    if c is not None and c >= 0:
        r = T.x_sqrt(T.SReal(T.real_const(c))).v
        if z3.is_rational_value(r):
            return p_const(r.as_fraction())
    if not p:
        return {}
    lead = leading(p)
    lc = abs(p[lead])
    # rational content that is a square
    import math
    cn, cd = lc.numerator, lc.denominator
    out = p_const(1)
    q = p_scale(p, 1 / lc)
    n, d = math.isqrt(cn), math.isqrt(cd)
    if n * n == cn and d * d == cd:
        out = p_const(Fraction(n, d))
    else:
        q = p
    mono, rest = common(q)
    keep = ()
    for (i, k) in mono:
        h = k // 2
        if h:
            e = ATOM[i]
            base = p_atom(e) if T.is_nonneg(e) or h % 2 == 0 else \
                mk_abs(p_atom(e))
            out = p_mul(out, p_pow(base, h))
        if k - 2 * h:
            keep = m_mul(keep, ((i, k - 2 * h),))
    rest = p_mul(rest, {keep: Fraction(1)}) if keep else rest
    c = p_isconst(rest)
    if c is not None and c >= 0:
        r = T.x_sqrt(T.SReal(T.real_const(c))).v
        if z3.is_rational_value(r):
            return p_scale(out, r.as_fraction())
    root = perfect_square(rest)
    if root is not None:
        return p_mul(out, mk_abs(root))
    a = T.f_sqrt(to_z3(rest))
    _canon[a.get_id()] = a
    _poly[a.arg(0).get_id()] = rest
    _keep.append(a)
    return p_mul(out, p_atom(a))


def perfect_square(p):
    """r with r*r == p for small polynomials, else None."""
    if len(p) not in (3, 6):
        return None
    import math
    sq = []
    for m, c in p.items():
        if all(k % 2 == 0 for _, k in m) and c > 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                sq.append((tuple((i, k // 2) for i, k in m), Fraction(n, d)))
    want = 2 if len(p) == 3 else 3
    if len(sq) != want:
        return None
    import itertools
    for signs in itertools.product((1, -1), repeat=want - 1):
        r = {sq[0][0]: sq[0][1]}
        for s, (m, c) in zip(signs, sq[1:]):
            r = p_add(r, {m: s * c})
        if p_mul(r, r) == p:
            return r
    return None


def p_exp(p):
    """exp of a polynomial."""
    out = p_const(1)
    for m, c in sorted(p.items()):
        # exp(c * log t)
        if len(m) == 1 and m[0][1] == 1 and kindname(ATOM[m[0][0]]) == "log":
            t = poly(ATOM[m[0][0]].arg(0))
            if c.denominator == 1 and abs(c) <= 8:
                out = p_mul(out, p_pow(t, int(c)))
                continue
            if c.denominator == 2 and abs(c) <= 8:
                out = p_mul(out, p_pow(p_sqrt(t), c.numerator))
                continue
        k, den = c.numerator, c.denominator
        if m == ():
            a = T.f_exp(T.real_const(c))
            _canon[a.get_id()] = a
            out = p_mul(out, p_atom(a))
            continue
        if abs(k) > 12:
            den, k = Fraction(1), 1
            a = T.f_exp(to_z3({m: c}))
        else:
            a = T.f_exp(to_z3({m: Fraction(1, den)}))
        _canon[a.get_id()] = a
        _keep.append(a)
        out = p_mul(out, {((atom_id(a), k),): Fraction(1)})
    return out


def p_log(p):
    c = p_isconst(p)
    if c == 1:
        return {}
    if not p:
        a = T.f_log(T.ZERO)
        _canon[a.get_id()] = a
        return p_atom(a)
    mono, rest = common(p)
    out = {}
    keep = ()
    for (i, k) in mono:
        e = ATOM[i]
        n = kindname(e)
        if n == "exp":
            out = p_add(out, p_scale(poly(e.arg(0)), k))
        else:
            keep = m_mul(keep, ((i, k),))
    rest = p_mul(rest, {keep: Fraction(1)}) if keep else rest
    if p_isconst(rest) == 1:
        return out
    # log of a pure monomial of sqrt: log sqrt t = log(t)/2
    if len(rest) == 1:
        (m, c), = rest.items()
        if c == 1 and len(m) == 1 and kindname(ATOM[m[0][0]]) == "sqrt":
            i, k = m[0]
            return p_add(out, p_scale(p_log(poly(ATOM[i].arg(0))),
                                      Fraction(k, 2)))
        if c == 1 and all(k < 0 for _, k in m):
            return p_add(out, p_scale(
                p_log({tuple((i, -k) for i, k in m): c}), -1))
    a = T.f_log(to_z3(rest))
    _canon[a.get_id()] = a
    _keep.append(a)
    return p_add(out, p_atom(a))


def sign_split(p):
    """(sign, canonical p) with p = sign * canonical."""
    if not p:
        return 1, p
    l = leading(p)
    if p[l] < 0:
        return -1, p_scale(p, -1)
    return 1, p


def m_to_z3(m, c, real=True):
    num, den = [], []
    for i, k in sorted(m, key=lambda t: t[0]):
        e = ATOM[i]
        (num if k > 0 else den).extend([e] * abs(k))
    if real:
        head = T.real_const(c)
    else:
        head = z3.IntVal(int(c))
    fs = num if (c == 1 and num) else [head] + num
    e = fs[0] if len(fs) == 1 else z3.Product(*fs)
    for d in den:
        e = e / d
    return e


def to_z3(p, real=True):
    if not p:
        return T.ZERO if real else z3.IntVal(0)
    ts = [m_to_z3(m, c, real) for m, c in sorted(p.items())]
    e = ts[0] if len(ts) == 1 else z3.Sum(*ts)
    _keep.append(e)
    if real:
        _poly.setdefault(e.get_id(), p)
    return e


IND_MODE = [False]


def poly(e):
    """Polynomial of a Real z3 term."""
    k = e.get_id()
    if not IND_MODE[0]:
        r = _poly.get(k)
        if r is not None:
            return r
    r = _poly_of(e)
    if not IND_MODE[0]:
        _poly[k] = r
        _keep.append(e)
    return r


def _poly_of(e):
    if z3.is_rational_value(e):
        return p_const(e.as_fraction())
    if not z3.is_app(e):
        return p_atom(e)
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = p_add(r, poly(c))
        roots = square_roots(e)
        if roots:
            note_squares([poly(x) for x in roots], r)
        return r
    if kd == z3.Z3_OP_SUB:
        ch = e.children()
        r = poly(ch[0])
        for c in ch[1:]:
            r = p_add(r, poly(c), -1)
        return r
    if kd == z3.Z3_OP_UMINUS:
        return p_scale(poly(e.arg(0)), -1)
    if kd == z3.Z3_OP_MUL:
        r = p_const(1)
        for c in e.children():
            r = p_mul(r, poly(c))
        return r
    if kd == z3.Z3_OP_DIV:
        if e.get_id() in _inv:
            return p_atom(e)
        return p_mul(poly(e.arg(0)), p_inv(poly(e.arg(1))))
    if kd == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
        f = e.arg(1).as_fraction()
        if f.denominator == 1 and abs(f) <= 8:
            return p_pow(poly(e.arg(0)), int(f))
    if kd == z3.Z3_OP_TO_REAL:
        a = e.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_INT:
            r = poly(a.arg(0))
            if integral(r):
                return r
        q = ipoly(e.arg(0))
        r = {}
        for m, c in q.items():
            t = p_const(c)
            for i, kk in m:
                t = p_mul(t, p_pow(p_atom(z3.ToReal(ATOM[i])), kk))
            r = p_add(r, t)
        return r
    if kd == z3.Z3_OP_ITE:
        return p_ite(e)
    if kd == z3.Z3_OP_UNINTERPRETED and e.num_args():
        n = e.decl().name()
        if n == "sqrt":
            return p_sqrt(poly(e.arg(0)))
        if n == "exp":
            return p_exp(poly(e.arg(0)))
        if n == "log":
            return p_log(poly(e.arg(0)))
        if n in ("sin", "cos"):
            s, q = sign_split(poly(e.arg(0)))
            f = T.f_sin if n == "sin" else T.f_cos
            if not q:
                return {} if n == "sin" else p_const(1)
            # sin(acos t) and cos(acos t)
            if len(q) == 1:
                (m, c), = q.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                        kindname(ATOM[m[0][0]]) == "acos":
                    t = poly(ATOM[m[0][0]].arg(0))
                    if n == "cos":
                        return t
                    return p_scale(p_sqrt(p_add(p_const(1), p_mul(t, t),
                                                -1)), s)
            a = f(to_z3(q))
            _canon[a.get_id()] = a
            _keep.append(a)
            return p_scale(p_atom(a), s if n == "sin" else 1)
        a = canon_app(e)
        return p_atom(a)
    if kd == z3.Z3_OP_UNINTERPRETED:
        return p_atom(e)
    return p_atom(canon_app(e))


def integral(p):
    """Integer coefficients over atoms that are sums of integers."""
    from . import binders as Bd
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for i, k in m:
            e = ATOM[i]
            if k < 0:
                return False
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
                continue
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and \
                    is_ind(e):
                continue
            d = Bd.lookup(e)
            if d is None or d.kind != "Sum" or not integral(poly(d.body)):
                return False
    return True


def p_ite(e):
    c, a, b = e.children()
    if e.get_id() in _abs_ids:
        return p_atom(e)
    cc = canon(c)
    if z3.is_true(cc):
        return poly(a)
    if z3.is_false(cc):
        return poly(b)
    pa, pb = poly(a), poly(b)
    if pa == pb:
        return pa
    neg = z3.is_not(cc)
    if neg:
        cc = cc.arg(0)
        pa, pb = pb, pa
    # abs pattern: condition is p >= 0 / p <= 0 with branches p, -p
    if p_add(pa, pb) == {} and z3.is_app(cc):
        dk = cc.decl().kind()
        if dk in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_LT) and \
                cc.arg(0).sort() == T.R:
            d = p_add(poly(cc.arg(0)), poly(cc.arg(1)), -1)
            if dk in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                d = p_scale(d, -1)
            # cond: d >= 0 (or > 0); value pa
            r = ratio(pa, d)
            if r is not None:
                return p_scale(mk_abs(pa), 1 if r > 0 else -1)
    if IND_MODE[0]:
        ind = ind_poly(cc)
        return p_add(pb, p_mul(ind, p_add(pa, pb, -1)))
    # common difference form: keep as one atom, factoring constants out
    s = 1
    lead = leading(pa) if pa else leading(pb)
    s = pa[lead] if pa else pb[lead]
    pa, pb = p_scale(pa, 1 / s), p_scale(pb, 1 / s)
    r = z3.If(cc, to_z3(pa), to_z3(pb))
    ATOM[r.get_id()] = r
    _canon[r.get_id()] = r
    _keep.append(r)
    return p_scale(p_atom(r), s)


def ratio(p, q):
    if not q or set(p) != set(q):
        return None
    rs = {p[m] / q[m] for m in p}
    return rs.pop() if len(rs) == 1 else None


def ind_poly(c):
    """Indicator of a canonical condition as a polynomial of indicators."""
    if z3.is_true(c):
        return p_const(1)
    if z3.is_false(c):
        return {}
    if z3.is_not(c):
        return p_add(p_const(1), ind_poly(c.arg(0)), -1)
    if z3.is_and(c):
        r = p_const(1)
        for ch in c.children():
            r = p_mul(r, ind_poly(ch))
        return r
    if z3.is_or(c):
        r = p_const(1)
        for ch in c.children():
            r = p_mul(r, p_add(p_const(1), ind_poly(ch), -1))
        return p_add(p_const(1), r, -1)
    zero = None
    if z3.is_eq(c) and c.arg(0).sort() == T.R:
        # [A*B = 0] = 1 - (1 - [A = 0])(1 - [B = 0])
        q = p_add(poly(c.arg(0)), poly(c.arg(1)), -1)
        if len(q) == 1:
            (m, v), = q.items()
            if m and all(k > 0 for _, k in m) and len(m) > 1:
                r = p_const(1)
                for i, _ in m:
                    r = p_mul(r, p_add(p_const(1), ind_poly(
                        eq_canon(p_atom(ATOM[i]), True)), -1))
                return p_add(p_const(1), r, -1)
            if len(m) == 1 and m[0][1] == 1:
                zero = m[0][0]
        if zero is None and q:
            zero = p_scale(q, 1 / q[leading(q)])
    a = z3.If(c, T.ONE, T.ZERO)
    ATOM[a.get_id()] = a
    _canon[a.get_id()] = a
    _keep.append(a)
    if zero is not None:
        _zero_of[a.get_id()] = zero
    return p_atom(a)


_zero_of = {}        # indicator [x = 0] -> x


def ipoly(e):
    """Polynomial of an Int term."""
    if z3.is_int_value(e):
        return p_const(e.as_long())
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = p_add(r, ipoly(c))
        return r
    if kd == z3.Z3_OP_SUB:
        ch = e.children()
        r = ipoly(ch[0])
        for c in ch[1:]:
            r = p_add(r, ipoly(c), -1)
        return r
    if kd == z3.Z3_OP_UMINUS:
        return p_scale(ipoly(e.arg(0)), -1)
    if kd == z3.Z3_OP_MUL:
        r = p_const(1)
        for c in e.children():
            r = p_mul(r, ipoly(c))
        return r
    if kd == z3.Z3_OP_ITE:
        c = canon(e.arg(0))
        if z3.is_true(c):
            return ipoly(e.arg(1))
        if z3.is_false(c):
            return ipoly(e.arg(2))
        a, b = canon(e.arg(1)), canon(e.arg(2))
        if a.eq(b):
            return ipoly(a)
        if z3.is_not(c):
            c, a, b = c.arg(0), b, a
        r = z3.If(c, a, b)
        _canon[r.get_id()] = r
        _keep.append(r)
        return p_atom(r)
    if e.num_args():
        return p_atom(canon_app(e))
    return p_atom(e)


def canon_app(e):
    ch = [canon(c) for c in e.children()]
    if all(a.eq(b) for a, b in zip(ch, e.children())):
        return e
    r = e.decl()(*ch)
    _keep.append(r)
    return r


def canon(e):
    """Canonical form of any term."""
    k = e.get_id()
    r = _canon.get(k)
    if r is not None:
        return r
    r = _canon_of(e)
    _canon[k] = r
    _canon[r.get_id()] = r
    _keep.append(e)
    _keep.append(r)
    return r


def _canon_of(e):
    s = e.sort()
    if s == T.R:
        return to_z3(poly(e))
    if s == T.I:
        return to_z3(ipoly(e), real=False)
    if not z3.is_app(e):
        return e
    kd = e.decl().kind()
    if kd in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
        return e
    if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = e.children()
        strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        return cmp_canon(a, b, strict)
    if kd == z3.Z3_OP_EQ:
        a, b = e.children()
        if a.sort() == T.R:
            p = p_add(poly(a), poly(b), -1)
            return eq_canon(p, True)
        if a.sort() == T.I:
            p = p_add(ipoly(a), ipoly(b), -1)
            return eq_canon(p, False)
        ca, cb = canon(a), canon(b)
        if ca.eq(cb):
            return z3.BoolVal(True)
        return z3.simplify(ca == cb) if (z3.is_true(ca) or z3.is_false(ca)
                                         or z3.is_true(cb) or z3.is_false(cb)
                                         ) else ca == cb
    if kd == z3.Z3_OP_NOT:
        return b_z(T.b_not(b_f(canon(e.arg(0)))))
    if kd == z3.Z3_OP_AND:
        return b_z(T.b_and(*[b_f(canon(c)) for c in e.children()]))
    if kd == z3.Z3_OP_OR:
        return b_z(T.b_or(*[b_f(canon(c)) for c in e.children()]))
    if kd == z3.Z3_OP_IMPLIES:
        return b_z(T.b_implies(b_f(canon(e.arg(0))), b_f(canon(e.arg(1)))))
    if kd == z3.Z3_OP_ITE:
        c = b_f(canon(e.arg(0)))
        return b_z(T.b_ite(c, b_f(canon(e.arg(1))), b_f(canon(e.arg(2)))))
    return canon_app(e)


def b_f(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def b_z(e):
    return T.b_z3(e)


_squares = {}        # scaled sum of squares -> its roots


def square_roots(e):
    """[x, y, ...] for the term x*x + y*y + ..., else None."""
    out = []
    for c in e.children():
        kd = c.decl().kind()
        if kd == z3.Z3_OP_ADD:
            r = square_roots(c)
            if not r:
                return None
            out += r
        elif kd == z3.Z3_OP_MUL and c.num_args() == 2 and \
                c.arg(0).eq(c.arg(1)):
            out.append(c.arg(0))
        else:
            return None
    return out


def pkey(p):
    lc = p[leading(p)]
    return frozenset((m, c / lc) for m, c in p.items())


def note_squares(roots, total):
    """Remember a sum of squares which expands to other terms."""
    if not total or all(len(r) <= 1 for r in roots) or len(total) > 200:
        return
    flat = []
    for r in roots:
        inner = None
        if len(r) == 1:
            (m, c), = r.items()
            if len(m) == 1 and m[0][1] == 1 and \
                    kindname(ATOM[m[0][0]]) == "sqrt":
                q = poly(ATOM[m[0][0]].arg(0))
                inner = squares_of(q)
        flat += inner or [r]
    _squares.setdefault(pkey(total), (flat, total[leading(total)] > 0))


def squares_of(p):
    """Roots of the squares whose sum is a multiple of p."""
    r = _squares.get(pkey(p)) if _squares and len(p) > 1 else None
    # the bodies of sums keep one form
    return r and not any(bound(i) for m in p for i, _ in m) and r[0]


_bound = {}


def bound(i):
    r = _bound.get(i)
    if r is None:
        r = _bound[i] = running(ATOM[i])
    return r


def running(e):
    """Does the term depend on the index of a body (#b or $k)?"""
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if not x.num_args() and x.decl().name()[:1] in "#$":
            return True
        stack.extend(x.children())
    return False


def eq_canon(p, real):
    c = p_isconst(p)
    if c is not None:
        return z3.BoolVal(c == 0)
    if real:
        if len(p) == 1:
            (m, _), = p.items()
            if len(m) == 1 and m[0][1] == 1 and \
                    kindname(ATOM[m[0][0]]) == "sqrt":
                q = poly(ATOM[m[0][0]].arg(0))
                if squares_of(q):
                    return eq_canon(q, True)
        sq = squares_of(p)
        if sq:
            return b_z(T.b_and(*[b_f(eq_canon(r, True)) for r in sq]))
    if real:
        p = drop_exp(p)
        c = p_isconst(p)
        if c is not None:
            return z3.BoolVal(c == 0)
    # drop non-zero positive content
    l = leading(p)
    p = p_scale(p, 1 / p[l])
    if not real:
        den = 1
        for v in p.values():
            den = den * v.denominator // _gcd(den, v.denominator)
        p = p_scale(p, den)
    k = p.get((), Fraction(0))
    q = dict(p)
    q.pop((), None)
    return to_z3(q, real) == to_z3(p_const(-k), real)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def drop_exp(p):
    """Divide by the common power of exponentials and pi (positive)."""
    mono, _ = common(p)
    low = {}
    for m in p:
        for i, k in m:
            if kindname(ATOM[i]) == "exp" or ATOM[i].eq(T.PI):
                low[i] = 0
    for i in low:
        low[i] = min(dict(m).get(i, 0) for m in p)
    inv = tuple(sorted((i, -k) for i, k in low.items() if k))
    if not inv:
        return p
    return {m_mul(m, inv): c for m, c in p.items()}


def exp_sides(p):
    """exp(p) - 1 when p is linear in logarithms (p <= 0 iff exp p <= 1)."""
    if p and all(len(m) == 1 and m[0][1] == 1
                 and kindname(ATOM[m[0][0]]) == "log" for m in p):
        # the scale of a combination of logarithms alone does not matter
        den = num = 0
        for c in p.values():
            den = den * c.denominator // _gcd(den, c.denominator) \
                if den else c.denominator
        for c in p.values():
            num = _gcd(num, int(abs(c) * den))
        p = p_scale(p, Fraction(den, num))
    some = False
    rest = 0
    for m, c in p.items():
        logs = [k for i, k in m if kindname(ATOM[i]) == "log"]
        if logs:
            if len(m) != 1 or logs[0] != 1 or (2 * c).denominator != 1 or \
                    abs(c) > 4:
                return None
            some = True
        else:
            rest += 1
    if not some or rest > 2:
        return None
    return p_add(p_exp(p), p_const(1), -1)


def cmp_canon(a, b, strict):
    real = a.sort() == T.R
    p = p_add(poly(a), poly(b), -1) if real else p_add(ipoly(a), ipoly(b), -1)
    c = p_isconst(p)
    if c is not None:
        return z3.BoolVal(c < 0 if strict else c <= 0)
    # p < 0 or p <= 0
    if real:
        q = exp_sides(p)
        if q is not None:
            p = q
            c = p_isconst(p)
            if c is not None:
                return z3.BoolVal(c < 0 if strict else c <= 0)
    if real:
        p = drop_exp(p)
        c = p_isconst(p)
        if c is not None:
            return z3.BoolVal(c < 0 if strict else c <= 0)
        l = leading(p)
        p = p_scale(p, 1 / abs(p[l]))
        sq = squares_of(p)
        if sq:
            # a sum of squares is zero or positive
            zero = eq_canon(p, True)
            if (p[l] > 0) == _squares[pkey(p)][1]:
                return z3.BoolVal(False) if strict else zero
            return b_z(T.b_not(b_f(zero))) if strict else z3.BoolVal(True)
    k = p.get((), Fraction(0))
    q = dict(p)
    q.pop((), None)
    # orient: put as  q OP -k with positive leading term
    l = leading(q)
    if not real:
        den = 1
        for v in q.values():
            den = den * v.denominator // _gcd(den, v.denominator)
        q, k = p_scale(q, den), k * den
        if strict:          # integers: q < -k  <=>  q <= -k-1
            k, strict = k + 1, False
    if q[l] > 0:
        lhs, rhs = to_z3(q, real), to_z3(p_const(-k), real)
        # q <= -k is the canonical atom; q < -k is not (q >= -k)
        return b_z(T.b_not(lhs >= rhs)) if strict else lhs <= rhs
    lhs, rhs = to_z3(p_scale(q, -1), real), to_z3(p_const(k), real)
    # -q >= k
    if real:
        return b_z(T.b_not(lhs <= rhs)) if strict else lhs >= rhs
    # integers: lhs >= rhs  <=>  not (lhs <= rhs - 1)
    return z3.Not(lhs <= to_z3(p_const(k - 1), False))


def clear_denominators(p):
    """(polynomial, [denominator polynomials]) with all inverses removed."""
    dens = []
    guard = 0
    while True:
        guard += 1
        if guard > 30:
            raise TooBig()
        target = None
        for m in p:
            for i, k in m:
                if i in _inv or k < 0:
                    target = i
                    break
            if target is not None:
                break
        if target is None:
            return p, dens
        if target in _inv:
            D = _inv[target]
            mx = max(dict(m).get(target, 0) for m in p)
            out = {}
            for m, c in p.items():
                k = dict(m).get(target, 0)
                rest = m_mul(m, ((target, -k),)) if k else m
                out = p_add(out, p_mul({rest: c}, p_pow(D, mx - k)))
            p = out
            dens.append(D)
        else:
            lo = min(dict(m).get(target, 0) for m in p)
            p = reduce_special({m_mul(m, ((target, -lo),)): c
                                for m, c in p.items()})
            dens.append(p_atom(ATOM[target]))
        if len(p) > MAX_TERMS:
            raise TooBig()


def merge_sqrt(p):
    """sqrt(a) * sqrt(b) = sqrt(a * b) inside every monomial."""
    out = {}
    for m, c in p.items():
        sq = [(i, k) for i, k in m if kindname(ATOM[i]) == "sqrt"]
        if len(sq) >= 2:
            rest, arg = m, p_const(1)
            for i, k in sq:
                rest = m_mul(rest, ((i, -k),))
                arg = p_mul(arg, p_pow(poly(ATOM[i].arg(0)), k))
            out = p_add(out, p_mul({rest: c}, p_sqrt(arg)))
        else:
            out = p_add(out, {m: c})
    return out
