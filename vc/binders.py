"""Binder terms: sums, counts, existentials, selections, arg-minima, ...

A binder is an uninterpreted function symbol whose definition (domain size and
body over a bound index) is kept in a table and is identified by the canonical
form of that definition.  Free index variables of the body (names starting
with ``$``) are the arguments of the symbol.
"""
from __future__ import annotations

import z3

from . import norm
from . import terms as T

BOUND = z3.Int("#b")
DEFS = {}            # symbol name -> Def
_bykey = {}


class Def:
    __slots__ = ("kind", "name", "decl", "params", "n", "body", "sort",
                 "extra", "wit", "holes")

    def inst(self, e, k=None):
        """(n, body at k) for an application e of this symbol."""
        sub = [(p, a) for p, a in zip(self.params, e.children())]
        n = z3.substitute(T_int(self.n), *sub) if sub else T_int(self.n)
        if k is None:
            return n, None
        b = z3.substitute(self.body, *(sub + [(BOUND, T_int(k))]))
        return n, b

    def at(self, args, k):
        sub = [(p, a) for p, a in zip(self.params, args)]
        return z3.substitute(self.body, *(sub + [(BOUND, T_int(k))]))

    def witness(self, e):
        if self.wit is None:
            sorts = [p.sort() for p in self.params] + [T.I]
            self.wit = z3.Function("wit_" + self.name, *sorts)
        return self.wit(*e.children())


def T_int(n):
    return z3.IntVal(n) if isinstance(n, int) else n


_fv = {}


def index_vars(e):
    """Free index variables of e (constants named $...)."""
    k = e.get_id()
    if k in _fv:
        return _fv[k][1]
    seen, out, stack = set(), [], [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                        x.decl().name().startswith("$"):
                    out.append(x)
            else:
                stack.extend(reversed(x.children()))
    out.sort(key=lambda c: c.decl().name())
    _fv[k] = (e, out)
    return out


def has_var(e, v):
    seen, stack = set(), [e]
    t = v.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == t:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            stack.extend(x.children())
    return False


def index_var(base="k"):
    return z3.Int("$" + T.fresh_name(base))


def range_var(base, n):
    """A fresh index, which the reads under its binder know to be in
    [0, n)."""
    k = index_var(base)
    c = T.ctx()
    if c is not None:
        c._know(k >= 0, True)
        c._know(T.b_z3(T.i_lt(k, n)), True)
    return k


FACTOR = [1]         # of the last sum made


def make(kind, n, var, body, extra=None, nparams=0, rsort=None):
    """Application of the binder ``kind`` over ``var`` in [0, n)."""
    n = T_int(n)
    n = norm.canon(n)
    body = norm.canon(body)
    terms = {}
    if kind in ("Any", "Cnt", "Sel", "Rank") and extra is None:
        body = holes(body, var, terms)
    fv = [v for v in index_vars(n) + index_vars(body) if not v.eq(var)]
    uniq = []
    for v in fv:
        if not any(v.eq(u) for u in uniq):
            uniq.append(v)
    # order of first occurrence for canonical parameters
    order = occurrence_order([n, body], uniq)
    params = [z3.Const(f"#p{j}", v.sort()) for j, v in enumerate(order)]
    sub = list(zip(order, params)) + [(var, BOUND)]
    cn = norm.canon(z3.substitute(n, *sub))
    cb = norm.canon(z3.substitute(body, *sub))
    FACTOR[0] = 1
    if kind == "Sum":
        # renaming the index can change which term of a denominator leads
        pb = ind_poly_of(cb)
        if len(pb) == 1:
            (m, c), = pb.items()
            if c != 1:
                FACTOR[0] = c
                cb = norm.to_z3({m: norm.Fraction(1)})
    key = (kind, cn.get_id(), cb.get_id(), len(params), extra)
    d = _bykey.get(key)
    if d is None:
        d = Def()
        d.kind, d.n, d.body, d.params, d.extra = kind, cn, cb, params, extra
        d.wit = None
        d.holes = frozenset(j for j, v in enumerate(order)
                            if v.get_id() in terms)
        d.name = f"{kind}!{len(_bykey)}"
        rs = rsort or {"Sum": T.R, "ISum": T.I, "Any": T.B, "Cnt": T.I,
                       "ArgMin": T.I, "ArgMax": T.I, "Sel": T.I,
                       "Rank": T.I, "ArgSort": T.I, "Place": T.I}[kind]
        d.sort = rs
        d.decl = z3.Function(d.name, *([p.sort() for p in params] +
                                       [T.I] * nparams + [rs]))
        _bykey[key] = d
        DEFS[d.name] = d
    return d, [terms.get(v.get_id(), (v, v))[1] for v in order]


def holes(b, var, terms):
    """Equations e(k) = t of a Boolean body, with t turned into an argument
    of the binder, so that equal questions are equal terms."""
    if z3.is_and(b) or z3.is_or(b) or z3.is_not(b):
        ch = [holes(c, var, terms) for c in b.children()]
        if all(p.eq(q) for p, q in zip(ch, b.children())):
            return b
        return norm.canon(z3.And(ch) if z3.is_and(b) else z3.Or(ch)
                          if z3.is_or(b) else z3.Not(ch[0]))
    if not (z3.is_eq(b) and b.arg(0).sort() == T.I):
        return b
    diff = norm.canon(b.arg(0) - b.arg(1))
    parts = diff.children() if z3.is_add(diff) else [diff]
    mine = [x for x in parts if has_var(x, var)]
    rest = [x for x in parts if not has_var(x, var)]
    if not mine or not rest or all(z3.is_int_value(x) for x in rest):
        return b
    lead = mine[0]
    neg = z3.is_mul(lead) and z3.is_int_value(lead.arg(0)) and \
        lead.arg(0).as_long() < 0
    left, right = z3.Sum(mine), z3.Sum(rest)
    if neg:
        left = -left
    else:
        right = -right
    left, right = norm.canon(left), norm.canon(right)
    if left.eq(var) or (z3.is_const(right) and
                        right.decl().name().startswith("$")):
        v = right
        if left.eq(var):
            return b
    else:
        v = index_var("h")
        for o, t in terms.values():
            if t.eq(right):
                v = o
                break
        terms[v.get_id()] = (v, right)
    return norm.canon(left == v)




def occurrence_order(es, vs):
    ids = {v.get_id(): v for v in vs}
    out, seen = [], set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if e.get_id() in ids:
            out.append(ids[e.get_id()])
            return
        for c in e.children():
            walk(c)
    for e in es:
        walk(e)
    return out


def app(d, args, *extra):
    return d.decl(*(list(args) + [T_int(x) for x in extra]))


def lookup(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return DEFS.get(e.decl().name())
    return None


def nonneg_app(e):
    d = lookup(e)
    if d is None:
        return False
    if d.kind == "Sum":
        return T.is_nonneg(d.body)
    return d.kind in ("Cnt", "Rank", "Sel", "ArgMin", "ArgMax")


# ------------------------------------------------------------------ builders
def sum_term(n, fnbody):
    """Sum over k in [0, n) of a Real body, as a Real term (linear)."""
    n = T.int_norm(n) if not isinstance(n, int) else n
    if isinstance(n, int) and n <= 8:
        r = T.ZERO
        for j in range(max(n, 0)):
            r = T.r_add(r, fnbody(j))
        return r
    k = range_var("s", n)
    body = fnbody(k)
    return sum_over(n, k, body)


def ind_poly_of(body):
    norm.IND_MODE[0] = True
    try:
        return norm.poly(body)
    finally:
        norm.IND_MODE[0] = False


def sum_over(n, k, body):
    # re-index sums over a selection to sums over the underlying mask
    r = reindex(n, k, body)
    if r is not None:
        n, k, body = r
    p = ind_poly_of(body)
    groups = {}          # inner monomial -> outer polynomial
    for m, c in p.items():
        inner, outer = (), ()
        for i, e in m:
            if has_var(norm.ATOM[i], k):
                inner = norm.m_mul(inner, ((i, e),))
            else:
                outer = norm.m_mul(outer, ((i, e),))
        groups[inner] = norm.p_add(groups.get(inner, {}), {outer: c})
    total = {}
    nn = T_int(n)
    for inner, outer in groups.items():
        if not inner:
            s = norm.poly(z3.ToReal(z3.If(nn >= 0, nn, z3.IntVal(0)))) \
                if not nonneg_int(nn) else norm.poly(z3.ToReal(nn))
        else:
            from fractions import Fraction
            b = norm.to_z3({inner: Fraction(1)})
            t = triangle(nn, k, inner)
            if t is not None:
                s = t
            # sum of a plain indicator is a count
            elif z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and \
                    norm.is_ind(b):
                s = norm.p_atom(z3.ToReal(count_over(n, k, b.arg(0))))
            else:
                d, args = make("Sum", n, k, b)
                s = norm.p_scale(norm.p_atom(app(d, args)), FACTOR[0])
        total = norm.p_add(total, norm.p_mul(outer, s))
    return norm.to_z3(total)


def triangle(n, k, inner):
    """A sum over a triangle, sum_i a_i sum_{j >= i} b_j, in one of the two
    orders of a and b:

    sum_i a_i sum_{j>=i} b_j + sum_i b_i sum_{j>=i} a_j
        = (sum a)(sum b) + sum_i a_i b_i
    """
    from fractions import Fraction
    hit = None
    for i, e in inner:
        x = norm.ATOM[i]
        d = lookup(x)
        if d is None or d.kind != "Sum" or e != 1 or \
                not any(a.eq(k) for a in x.children()):
            continue
        nn, _ = d.inst(x)
        nn = norm.canon(nn)
        if not has_var(nn, k):
            continue
        for shift in (0, 1):
            if nn.eq(norm.canon(n - k - shift)):
                j = index_var("s")
                _, b = d.inst(x, j - k - shift)
                b = norm.canon(b)
                if not has_var(b, k):
                    hit = (i, j, b, shift, "ge")
        if hit is None and nn.eq(norm.canon(k)):
            j = index_var("s")
            _, b = d.inst(x, j)
            b = norm.canon(b)
            if not has_var(b, k):
                hit = (i, j, b, 0, "lt")
        if hit:
            break
    if not hit:
        return None
    i, j, b, shift, kind = hit
    rest = norm.m_mul(inner, ((i, -1),))
    a = norm.to_z3({rest: Fraction(1)})
    b = norm.canon(z3.substitute(b, (j, k)))
    S = lambda e: norm.poly(sum_over(n, k, e))
    ab = S(a * b)
    if kind == "lt":
        # sum_i a_i sum_{j<i} b_j = sum_j b_j sum_{i>=j} a_i - sum ab
        return norm.p_add(upper(n, k, b, a, S, ab), ab, -1)
    r = upper(n, k, a, b, S, ab)
    return norm.p_add(r, ab, -1) if shift else r


def upper(n, k, a, b, S, ab):
    """sum_i a_i sum_{j>=i} b_j"""
    ka = norm.canon(z3.substitute(a, (k, BOUND)))
    kb = norm.canon(z3.substitute(b, (k, BOUND)))
    if ka.eq(kb):
        sa = S(a)
        return norm.p_scale(norm.p_add(norm.p_mul(sa, sa), ab),
                            norm.Fraction(1, 2))
    if ka.get_id() > kb.get_id():
        return norm.p_add(norm.p_add(norm.p_mul(S(a), S(b)), ab),
                          upper(n, k, b, a, S, ab), -1)
    j = index_var("s")
    bj = z3.substitute(b, (k, j + k))
    di, ai = make("Sum", norm.canon(n - k), j, bj)
    f = FACTOR[0]
    d, args = make("Sum", n, k, a * app(di, ai))
    return norm.p_scale(norm.p_atom(app(d, args)), f * FACTOR[0])


def nonneg_int(n):
    if z3.is_int_value(n):
        return n.as_long() >= 0
    c = T.ctx()
    if c is not None and c.quick(n >= 0) is True:
        return True
    d = lookup(n)
    return d is not None and d.kind in ("Cnt",)


def reindex(n, k, body):
    """n = Cnt_m, body depends on k only through Sel_m(k)."""
    d = lookup(T_int(n)) if not isinstance(n, int) else None
    if d is None or d.kind != "Cnt" or d.extra is not None:
        return None
    for s in selections(body, k):
        sd = lookup(s)
        if sd.n.eq(d.n) and sd.body.eq(d.body) and all(
                a.eq(b) for a, b in zip(s.children(), n.children())):
            i = index_var("s")
            nb = replaced(body, k, s, i)
            if nb is None:
                return None
            cond = d.at(n.children(), i)
            nn, _ = d.inst(n)
            return nn, i, z3.If(cond, nb, T.ZERO)
    return None


def nested(e, k):
    """Counts and sums in e which have k for an argument."""
    return find_apps(e, lambda x: (lambda d: d is not None and d.kind in (
        "Cnt", "Sum") and any(a.eq(k) for a in x.children()))(lookup(x)))


def selections(e, k, depth=3):
    """Sel(.., k) in e, or in the bodies of the counts and sums in it."""
    out = find_apps(e, lambda x: (lambda d: d is not None and
                                  d.kind == "Sel" and
                                  x.arg(x.num_args() - 1).eq(k))(lookup(x)))
    if depth:
        for x in nested(e, k):
            out += selections(lookup(x).inst(x, index_var("s"))[1], k,
                              depth - 1)
    return out


def replaced(e, k, s, i, depth=3):
    """e without k, where k only picks the place s; else None."""
    e = z3.substitute(e, (s, i))
    if has_var(e, k) and depth:
        sub = []
        for x in nested(e, k):
            d = lookup(x)
            j = index_var("s")
            n, b = d.inst(x, j)
            b = replaced(b, k, s, i, depth - 1)
            if b is None or has_var(n, k):
                return None
            sub.append((x, count_over(n, j, norm.canon(b))
                        if d.kind == "Cnt" else sum_over(n, j, b)))
        if sub:
            e = z3.substitute(e, *sub)
    return None if has_var(e, k) else e


def find_apps(e, pred):
    seen, out, stack = set(), [], [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if pred(x):
                out.append(x)
            stack.extend(x.children())
    return out


def count_over(n, k, cond):
    d, args = make("Cnt", n, k, cond)
    return app(d, args)


def count_term(n, fnbody):
    """Number of k in [0, n) with a Bool body: Int term or int."""
    if isinstance(n, int) and n <= 8:
        r = 0
        for j in range(n):
            c = fnbody(j)
            r = T.i_add(r, T.t_ite(c if isinstance(c, bool) else c, 1, 0))
        return r
    k = range_var("c", n)
    b = fnbody(k)
    if isinstance(b, bool):
        return n if b else 0
    b = norm.canon(b)
    if z3.is_true(b):
        return n
    if z3.is_false(b):
        return 0
    # a count over a selection: over the mask itself
    r = reindex_bool(n, k, b)
    if r is not None:
        n, k, b = r
    r = permuted_count(n, k, b)
    if r is not None:
        return r
    return count_over(n, k, b)


def permuted_count(n, k, b):
    """The number of k < n with lo <= Q(k) < hi and k != c, where Q is a
    permutation of the indices."""
    c = T.ctx()
    if not getattr(c, "perms", None):
        return None
    parts = conjuncts(b)
    parts = list({x.get_id(): x for x in parts}.values())
    for pm, _, shape, _ in c.perms:
        if not norm.canon(T_int(shape[pm.axis])).eq(norm.canon(T_int(n))):
            continue
        qs = find_apps(b, lambda e: e.decl().eq(pm.Q) and
                       e.arg(pm.axis).eq(k))
        if len(qs) == 1 and not any(
                has_var(a, k) for j, a in enumerate(qs[0].children())
                if j != pm.axis):
            return interval(n, k, parts, qs[0], pm)
    return None


def conjuncts(b, neg=False):
    if z3.is_not(b):
        return conjuncts(b.arg(0), not neg)
    if z3.is_or(b) if neg else z3.is_and(b):
        return [y for x in b.children() for y in conjuncts(x, neg)]
    return [T.b_not(b) if neg else b]


def interval(n, k, parts, q, pm):
    from . import solve
    c = T.ctx()
    lo, hi, out = z3.IntVal(0), T_int(n), None
    base = list(c.assumptions) + [k >= 0, k < T_int(n)]
    for x in parts:
        if not has_var(x, k):
            return None
        r = unit(x, q, k) or unit(x, k, k)
        if r is None:
            # what the other conditions imply
            rest = [y for y in parts if not y.eq(x)]
            if solve.feasible_full(base + rest, z3.Not(x)):
                return None
            continue
        var, kind, t = r
        if var.eq(q) and kind == "ge":
            lo = z3.If(t > lo, t, lo)
        elif var.eq(q) and kind == "le":
            hi = z3.If(t + 1 < hi, t + 1, hi)
        elif var.eq(k) and kind == "ne" and out is None and \
                not solve.feasible_full(list(c.assumptions), z3.Not(
                    z3.And(t >= 0, t < T_int(n)))):
            out = q.decl()(*[t if j == pm.axis else a
                             for j, a in enumerate(q.children())])
        else:
            return None
    r = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    if out is not None:
        r = r - z3.If(z3.And(lo <= out, out < hi), 1, 0)
    return r


def unit(x, v, k):
    """(v, 'ge' | 'le' | 'ne', t) for a comparison of v with a t without
    k."""
    neg = z3.is_not(x)
    a = x.arg(0) if neg else x
    if not z3.is_app(a) or a.num_args() != 2 or a.arg(0).sort() != T.I:
        return None
    kind = {z3.Z3_OP_LE: "le", z3.Z3_OP_GE: "ge", z3.Z3_OP_LT: "lt",
            z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq"}.get(a.decl().kind())
    if kind is None:
        return None
    p = norm.p_add(norm.ipoly(a.arg(0)), norm.ipoly(a.arg(1)), -1)
    i = norm.atom_id(v)
    co = p.pop(((i, 1),), 0)
    if abs(co) != 1:
        return None
    rest = norm.to_z3(norm.p_scale(p, -co), False)
    if has_var(rest, k):
        return None
    if co < 0:
        kind = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt",
                "eq": "eq"}[kind]
    if neg:
        kind = {"le": "gt", "gt": "le", "ge": "lt", "lt": "ge",
                "eq": "ne"}[kind]
    if kind == "eq":
        return None
    if kind == "lt":
        return v, "le", rest - 1
    if kind == "gt":
        return v, "ge", rest + 1
    return v, kind, rest


def any_term(n, fnbody):
    if isinstance(n, int) and n <= 8:
        return T.b_or(*[fnbody(j) for j in range(n)])
    k = range_var("a", n)
    b = fnbody(k)
    if b is False:
        return False
    if b is True:
        return T.b_not(T.i_le(n, 0))
    b = norm.canon(b)
    if z3.is_false(b):
        return False
    if z3.is_true(b):
        return T.b_not(T.i_le(n, 0))
    r = unsort(n, k, b)
    if r is not None:
        n, k, b = r
    # existential over a selection: over the mask itself
    r = reindex_bool(n, k, b)
    if r is not None:
        n, k, b = r
    if z3.is_or(b):
        return T.b_or(*[any_over(n, k, c) for c in b.children()])
    return any_over(n, k, b)


def unsort(n, k, b):
    """Ex k < n over an argsort of n entries: over the entries."""
    n = norm.canon(T_int(n))
    for s in find_apps(b, lambda e: (lambda dd: dd is not None and
                                     dd.kind == "ArgSort" and
                                     e.arg(e.num_args() - 1).eq(k))(
                                         lookup(e))):
        d = lookup(s)
        dn = z3.substitute(d.n, *zip(d.params, s.children()[:-1])) \
            if d.params else d.n
        if not norm.canon(dn).eq(n):
            continue
        v = index_var("v")
        nb = z3.substitute(b, (s, v))
        if not has_var(nb, k):
            return n, v, norm.canon(nb)
    return None


def reindex_bool(n, k, b):
    r = reindex(n, k, z3.If(b, T.ONE, T.ZERO))
    if r is None:
        return None
    nn, i, body = r
    # body is If(mask, If(b', 1, 0), 0)
    return nn, i, norm.canon(z3.And(body.arg(0), body.arg(1).arg(0)))


def one_point(n, k, b):
    """Ex k < n. (k = t and b')  is  0 <= t < n and b'[t]."""
    parts = list(b.children()) if z3.is_and(b) else [b]
    for j, c in enumerate(parts):
        if not (z3.is_eq(c) and c.arg(0).sort() == T.I and has_var(c, k)):
            continue
        diff = c.arg(0) - c.arg(1)
        d0 = norm.canon(z3.substitute(diff, (k, z3.IntVal(0))))
        for sign in (1, -1):
            if norm.canon(diff - sign * k - d0).eq(norm.canon(
                    z3.IntVal(0))):
                t = norm.canon(-sign * d0)
                rest = [norm.canon(z3.substitute(x, (k, t)))
                        for i, x in enumerate(parts) if i != j]
                return T.b_and(T.i_le(0, t), T.i_lt(t, n), *[
                    True if z3.is_true(x) else False if z3.is_false(x)
                    else x for x in rest])
    return None


def values_any(n, k, b):
    """Ex k < n. b(u(k)) with u enumerating a set of values: if b says
    u(k) = t, then it is  P(t) and b'(t)."""
    d = lookup(T_int(n)) if not isinstance(n, int) else None
    if d is None or d.kind != "Cnt" or d.extra != "Z":
        return None
    for s in find_apps(b, lambda e: (lambda dd: dd is not None and
                                     dd.kind == "Sel" and dd.extra == "Z"
                                     and e.arg(e.num_args() - 1).eq(k))(
                                         lookup(e))):
        sd = lookup(s)
        if not (sd.n.eq(d.n) and sd.body.eq(d.body) and all(
                a.eq(c) for a, c in zip(s.children(), n.children()))):
            continue
        v = index_var("v")
        nb = z3.substitute(b, (s, v))
        if has_var(nb, k):
            return None
        big = z3.Int("#anywhere")
        r = one_point(big, v, norm.canon(nb))
        if r is None or isinstance(r, bool):
            return None
        # drop the range of v, which is unbounded
        parts = list(r.children()) if z3.is_and(r) else [r]
        parts = [x for x in parts if not has_var(x, big)]
        t = one_point_value(v, norm.canon(nb))
        lo = T.i_le(0, t)
        parts = [x for x in parts if isinstance(lo, bool) or not x.eq(lo)]
        present = norm.canon(sd.at(s.children()[:-1], t))
        return T.b_and(present, *parts)
    return None


def one_point_value(k, b):
    parts = list(b.children()) if z3.is_and(b) else [b]
    for c in parts:
        if not (z3.is_eq(c) and c.arg(0).sort() == T.I and has_var(c, k)):
            continue
        diff = c.arg(0) - c.arg(1)
        d0 = norm.canon(z3.substitute(diff, (k, z3.IntVal(0))))
        for sign in (1, -1):
            if norm.canon(diff - sign * k - d0).eq(norm.canon(
                    z3.IntVal(0))):
                return norm.canon(-sign * d0)
    return None


class Values:
    """The increasing enumeration of the values v with present(v): a
    finite set, given by the entries of an array of ``size`` elements."""

    def __init__(self, size, present):
        v = index_var("v")
        b = norm.canon(T.b_z3(present(v)))
        self.cd, self.args = make("Cnt", size, v, b, extra="Z")
        self.count = app(self.cd, self.args)
        self.sd, self.sargs = make("Sel", size, v, b, extra="Z", nparams=1)
        self.rd, self.rargs = make("Rank", size, v, b, extra="Z", nparams=1)

    def sel(self, k):
        return app(self.sd, self.sargs, k)

    def rank(self, v):
        return app(self.rd, self.rargs, v)


def any_over(n, k, b):
    if not has_var(b, k):
        return T.b_and(b, T.b_not(T.i_le(n, 0)))
    r = values_any(n, k, b)
    if r is None:
        r = one_point(n, k, b)
    if r is not None:
        return r
    d, args = make("Any", n, k, b)
    return app(d, args)


def all_term(n, fnbody):
    return T.b_not(any_term(n, lambda k: T.b_not(fnbody(k))))


def argmin_term(n, fnkey, largest=False):
    k = range_var("m", n)
    b = fnkey(k)
    if largest:
        b = -b
    d, args = make("ArgMin", n, k, b)
    return app(d, args)


class Selection:
    """The increasing enumeration of the true positions of a mask."""

    def __init__(self, n, fnbody):
        self.n = n
        self.fnbody = fnbody
        if isinstance(n, int) and n <= 8:
            flags = [fnbody(j) for j in range(n)]
            if all(isinstance(f, bool) for f in flags):
                self.const = [j for j, f in enumerate(flags) if f]
                self.count = len(self.const)
                return
        self.const = None
        k = range_var("c", n)
        b = fnbody(k)
        if b is True:
            self.count, self.ident = n, True
            return
        self.ident = False
        if b is False:
            self.count, self.const = 0, []
            return
        b = norm.canon(b)
        if z3.is_true(b):
            self.count, self.ident = n, True
            return
        if z3.is_false(b):
            self.count, self.const = 0, []
            return
        if has_var(b, k) is False:
            pass
        self.cd, self.args = make("Cnt", n, k, b)
        self.count = app(self.cd, self.args)
        self.sd, self.sargs = make("Sel", n, k, b, nparams=1)
        self.rd, self.rargs = make("Rank", n, k, b, nparams=1)

    def sel(self, k):
        if self.const is not None:
            if isinstance(k, int):
                return self.const[k]
            r = self.const[-1] if self.const else 0
            for j, v in reversed(list(enumerate(self.const[:-1]))):
                r = T.t_ite(T.i_eq(k, j), v, r)
            return r
        if self.ident:
            return k
        return app(self.sd, self.sargs, k)

    def rank(self, i):
        if self.const is not None:
            if isinstance(i, int):
                return sum(1 for v in self.const if v < i)
            r = 0
            for v in self.const:
                r = T.i_add(r, T.t_ite(T.i_lt(v, i), 1, 0))
            return r
        if self.ident:
            return i
        return app(self.rd, self.rargs, i)
