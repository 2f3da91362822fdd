"""Derivatives of real terms.

The derivative of |x| is taken where x is not 0, that of sqrt(q) where q is
not 0 (0 is returned at 0); contracts exclude the other points.
"""
from __future__ import annotations

import z3

from . import binders as Bd
from . import terms as T
from .terms import (ONE, Unsupported, ZERO, f_cos, f_exp, f_sin, f_sqrt,
                    r_add, r_div, r_mul, r_neg, r_sub)


def depends(e, x):
    """Whether x occurs in e or in the definition of a binder of e."""
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.eq(x):
            return True
        stack.extend(t.children())
        d = Bd.DEFS.get(t.decl().name())
        if d is not None:
            stack.append(d.body)
            stack.append(Bd.T_int(d.n))
    return False


def diff(e, x):
    """d e / d x for a Real term e and a Real constant x."""
    if e.eq(x):
        return ONE
    if not depends(e, x):
        return ZERO
    kd = e.decl().kind()
    ch = e.children()
    if kd == z3.Z3_OP_ADD:
        r = ZERO
        for c in ch:
            r = r_add(r, diff(c, x))
        return r
    if kd == z3.Z3_OP_SUB:
        r = diff(ch[0], x)
        for c in ch[1:]:
            r = r_sub(r, diff(c, x))
        return r
    if kd == z3.Z3_OP_UMINUS:
        return r_neg(diff(ch[0], x))
    if kd == z3.Z3_OP_MUL:
        r = ZERO
        for i, c in enumerate(ch):
            d = diff(c, x)
            for j, o in enumerate(ch):
                if j != i:
                    d = r_mul(d, o)
            r = r_add(r, d)
        return r
    if kd == z3.Z3_OP_DIV:
        a, b = ch
        da, db = diff(a, x), diff(b, x)
        r = r_div(da, b)
        if T.is_zero(db):
            return r
        return r_sub(r, r_div(r_mul(a, db), r_mul(b, b)))
    if kd == z3.Z3_OP_ITE:
        c, a, b = ch
        return z3.If(c, diff(a, x), diff(b, x))
    if kd == z3.Z3_OP_UNINTERPRETED:
        d = e.decl()
        if d.eq(f_sin):
            return r_mul(f_cos(ch[0]), diff(ch[0], x))
        if d.eq(f_cos):
            return r_neg(r_mul(f_sin(ch[0]), diff(ch[0], x)))
        if d.eq(f_exp):
            return r_mul(e, diff(ch[0], x))
        if d.eq(f_sqrt):
            q = diff(ch[0], x)
            return z3.If(ch[0] == 0, ZERO, r_div(
                r_mul(T.real_const(0.5), q), e))
        df = Bd.DEFS.get(d.name())
        if df is not None and df.kind == "Sum":
            k = Bd.index_var("s")
            n, body = df.inst(e, k)
            if depends(n, x):
                raise Unsupported("derivative of a range")
            return Bd.sum_over(n, k, diff(body, x))
    raise Unsupported(f"derivative of {e.decl().name()}")
