"""Models of scipy's sparse arrays, breadth-first search and assignment:
the part of their documented behaviour that the package relies on."""
from __future__ import annotations

import numpy as np
import z3

from . import arrays as A
from . import binders as Bd
from . import ops
from . import terms as T
from .arrays import SArr, as_int
from .terms import (SInt, Unsupported, b_and, ctx, i_eq, i_le, i_lt)

I4, I8, B1 = np.dtype(np.int32), A.I8, A.B1


class _Base:
    ndim = 2
    __hash__ = None

    @property
    def shape(self):
        return tuple(T.mkint(n) if not isinstance(n, int) else n
                     for n in self._n)

    @property
    def dtype(self):
        return self.data.dtype

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("sparse array attribute " + a)


class Coo(_Base):
    """A coordinate list; entries at the same position add up."""

    def __init__(self, data, row, col, n):
        self.__dict__["_d"] = dict(data=data, row=row, col=col)
        self._n = n
        self.merged = False

    def _get(self, a):
        if self.merged:
            raise Unsupported("entries after sum_duplicates")
        return self._d[a]

    data = property(lambda s: s._d["data"] if not s.merged else s._get(
        "data"), lambda s, v: s._set("data", v))
    row = property(lambda s: s._get("row"), lambda s, v: s._set("row", v))
    col = property(lambda s: s._get("col"), lambda s, v: s._set("col", v))

    @property
    def coords(self):
        return self.row, self.col

    @property
    def nnz(self):
        return T.mkint(self.row.ishape[0])

    def _set(self, a, v):
        v = ops.asarray(v)
        if A.same_int(v.ishape[0], self._d["row"].ishape[0]) is not True:
            raise Unsupported("sparse data of another length")
        self._d[a] = v

    def copy(self):
        r = Coo(self._d["data"].copy(), self._d["row"].copy(),
                self._d["col"].copy(), self._n)
        r.merged = self.merged
        return r

    def _cells(self):
        f, r, c = (self._d[a].freeze() for a in ("data", "row", "col"))
        return self._d["row"].ishape[0], f, (
            lambda k: T.int_e(r((k,)))), (lambda k: T.int_e(c((k,))))

    def _total(self, dt, at):
        """The sum of the data of the entries with at(k)."""
        m, f, _, _ = self._cells()

        def term(k):
            v = f((k,))
            if T.is_intlike(v) or isinstance(v, (bool, int)):
                v = T.mkint(T.int_e(v))
            zero = T.SReal(T.ZERO) if type(v) is T.SReal else 0
            return T.ite(at(k), v, zero)
        r = ops.sum_fold(m, term)
        return A.cast(r, dt)

    def _count(self, at):
        """How many entries with at(k) hold a true value."""
        m, f, _, _ = self._cells()
        return SInt(Bd.T_int(Bd.count_term(
            m, lambda k: b_and(T.bool_e(f((k,))), at(k)))), I8)

    def sum(self, axis=None, dtype=None, out=None):
        if axis not in (0, 1) or dtype is not None:
            raise Unsupported("sparse sum")
        ctx().trust("scipy.sparse coo_array.sum: the sum of the entries of "
                    "each row or column")
        _, f, r, c = self._cells()
        key = c if axis == 0 else r
        if self.dtype.kind == "b":
            return A.build((self._n[1 - axis],), I8, lambda ix: self._count(
                lambda k: i_eq(key(k), ix[0])))
        return A.build((self._n[1 - axis],), self.dtype,
                       lambda ix: self._total(self.dtype, lambda k: i_eq(
                           key(k), ix[0])))

    def sum_duplicates(self):
        self.merged = True

    def todense(self, order=None, out=None):
        ctx().trust("scipy.sparse coo_array.todense: entries at the same "
                    "position are added")
        m, f, r, c = self._cells()
        dt = self._d["data"].dtype

        def cell(ix):
            at = lambda k: b_and(i_eq(r(k), ix[0]), i_eq(c(k), ix[1]))
            if dt.kind == "b":
                return T.mkbool(Bd.any_term(m, lambda k: b_and(
                    T.bool_e(f((k,))), at(k))))
            return self._total(dt, at)
        return A.build(self._n, dt, cell)

    toarray = todense

    def tocsr(self, copy=False):
        return Csr(self)

    def tocoo(self, copy=False):
        return self.copy() if copy else self


class Csr(_Base):
    def __init__(self, coo):
        self._coo = coo.copy()
        self._n = coo._n


class Reached:
    """The nodes below the root of a breadth-first tree."""

    def __init__(self, csr, root):
        m, f, r, c = csr._coo._cells()
        self.n = csr._n[0]
        name = T.fresh_name("reached")
        self.R = z3.Function(name, T.I, T.B)
        root = Bd.T_int(root)
        inside = lambda v: z3.Or(Bd.T_int(v) == root, self.R(Bd.T_int(v)))
        self.inside = inside
        c_ = ctx()
        # closed under the edges
        k = Bd.index_var("all")
        edge = z3.Implies(inside(r(k)), inside(c(k)))
        from . import solve
        names = tuple(sorted({t.decl().name() for t in solve.subterms(
            [Bd.T_int(r(k)), Bd.T_int(c(k))]) if solve.is_uf(t) and
            "." in t.decl().name()}))

        def closed(e):
            a = e.arg(0)
            return z3.Implies(z3.And(a >= 0, a < Bd.T_int(m)),
                              z3.substitute(edge, (k, a)))
        c_.facts.append((names, closed))
        # the nodes are nodes, the root is not among them
        c_.facts.append(((name,), lambda e: z3.Implies(e, z3.And(
            e.arg(0) != root, e.arg(0) >= 0, e.arg(0) < Bd.T_int(self.n)))))
        # induction: a set with the root and closed under the edges
        for ghost in getattr(c_, "closed_sets", ()):
            T_ = lambda v: Bd.any_term(m, lambda j: b_and(
                T.b_or(b_and(i_eq(r(j), v), ghost(j, 0)),
                       b_and(i_eq(c(j), v), ghost(j, 1)))))
            self.schema(T_, root, m, r, c, name)
        c_.trust("scipy.sparse.csgraph.breadth_first_tree: its indices are "
                 "the nodes other than the root in the least set closed "
                 "under the edges that has the root")

    def schema(self, T_, root, m, r, c, name):
        c_ = ctx()
        c_.prove("induction: the set has the root", T_(root), kind="ghost")
        k = Bd.index_var("k")
        mk = c_.mark()
        c_.assume(z3.And(k >= 0, k < Bd.T_int(m)))
        c_.assume(T.b_z3(T_(r(k))))
        c_.prove("induction: the set is closed", T_(c(k)), kind="ghost")
        c_.reset(mk)
        c_.facts.append(((name,), lambda e: z3.Implies(e, T.b_z3(T_(
            e.arg(0))))))

    @property
    def indices(self):
        n = self.n
        k = Bd.index_var("r")
        sel = Bd.Selection(n, lambda v: self.R(Bd.T_int(v)))
        return A.build((sel.count,), I4, lambda ix: SInt(Bd.T_int(
            sel.sel(ix[0])), I4))


def breadth_first_tree(csgraph, i_start, directed=True):
    if type(csgraph) is Coo:
        csgraph = Csr(csgraph)
    if type(csgraph) is not Csr:
        raise Unsupported("breadth-first search")
    if directed is not True:
        raise Unsupported("undirected search")
    root = as_int(i_start)
    n = csgraph._n[0]
    if not ctx().decide(b_and(i_le(0, root), i_lt(root, n))):
        raise Unsupported("a root outside the graph")
    return Reached(csgraph, root)


def index_of(x):
    x = ops.asarray(x)
    return x if x.dtype == I4 else x.astype(I4)


def coo_array(arg1, shape=None, dtype=None, copy=False):
    if type(arg1) is Coo:
        return arg1.copy() if copy else arg1
    if isinstance(arg1, tuple) and len(arg1) == 2 and isinstance(
            arg1[1], tuple):
        data, (row, col) = arg1
        if shape is None:
            raise Unsupported("sparse array of unknown shape")
        data = ops.asarray(data, dtype)
        row, col = index_of(row), index_of(col)
        n = tuple(as_int(s) for s in shape)
        for x in (data, col):
            if A.same_int(x.ishape[0], row.ishape[0]) is not True and \
                    not ctx().decide(i_eq(x.ishape[0], row.ishape[0])):
                raise ValueError("row, column, and data array must all be "
                                 "the same length")
        fr, fc = row.freeze(), col.freeze()
        k = Bd.index_var("k")
        m = row.ishape[0]
        ok = b_and(*[Bd.all_term(m, lambda j, f=f, b=b: b_and(
            i_le(0, T.int_e(f((j,)))), i_lt(T.int_e(f((j,))), b)))
            for f, b in ((fr, n[0]), (fc, n[1]))])
        ctx().prove("coordinates inside the sparse array", ok,
                    kind="safety")
        return Coo(copy_of(data, copy), row, col, n)
    if type(arg1) is SArr and arg1.ndim == 2:
        return from_dense(arg1, dtype)
    raise Unsupported("sparse array from this")


def copy_of(x, copy):
    return x.copy() if copy else x


def from_dense(a, dtype):
    """The non-zero entries, each once."""
    a = ops.asarray(a, dtype)
    f, (n, m) = a.freeze(), a.ishape
    if isinstance(n, int) and isinstance(m, int):
        raise Unsupported("sparse array of a small matrix")
    nm = T.fresh_name("nz")
    R, C = (z3.Function(nm + t, T.I, T.I) for t in ("row", "col"))
    W = z3.Function(nm + "at", T.I, T.I, T.I)
    cnt = z3.Int(nm + "count")
    nz = lambda i, j: T.b_z3(b_and(
        i_le(0, i), i_lt(i, n), i_le(0, j), i_lt(j, m),
        T.bool_e(f((i, j)))))
    c = ctx()
    c.assume(cnt >= 0)

    def entry(e):
        t = e.arg(0)
        return z3.Implies(z3.And(t >= 0, t < cnt), z3.And(
            nz(R(t), C(t)), W(R(t), C(t)) == t))
    c.facts.append(((nm + "row", nm + "col"), entry))
    i, j = Bd.index_var("i"), Bd.index_var("j")
    from . import solve
    names = tuple(sorted({t.decl().name() for t in solve.subterms(
        [nz(i, j)]) if solve.is_uf(t) and "." in t.decl().name()}))

    def listed(e):
        p, q = e.arg(0), e.arg(1)
        w = W(p, q)
        return z3.Implies(nz(p, q), z3.And(w >= 0, w < cnt, R(w) == p,
                                           C(w) == q))
    c.facts.append((names, listed))
    c.trust("scipy.sparse.coo_array of a matrix: its non-zero entries, each "
            "once")
    row = A.build((cnt,), I4, lambda ix: SInt(R(Bd.T_int(ix[0])), I4))
    col = A.build((cnt,), I4, lambda ix: SInt(C(Bd.T_int(ix[0])), I4))
    data = A.build((cnt,), a.dtype, lambda ix: f((
        R(Bd.T_int(ix[0])), C(Bd.T_int(ix[0])))))
    return Coo(data, row, col, (n, m))


def csr_array(arg1, shape=None, dtype=None, copy=False):
    if type(arg1) is Coo:
        return Csr(arg1)
    raise Unsupported("csr_array")


# ------------------------------------------------------------- assignment
ASSIGN = []


def linear_sum_assignment(cost_matrix, maximize=False):
    """The model of scipy.optimize.linear_sum_assignment: rows 0, 1, ... in
    order with distinct columns (the optimality of the choice is assumed)."""
    a = ops.asarray(cost_matrix)
    if a.ndim != 2:
        raise ValueError("expected a matrix (2-D array)")
    n, m = a.ishape
    f = a.freeze()
    small = i_le(n, m)
    if not ctx().decide(small):
        raise Unsupported("more rows than columns to assign")
    nm = T.fresh_name("assigned")
    P = z3.Function(nm, T.I, T.I)
    Q = z3.Function(nm + "inv", T.I, T.I)
    c = ctx()
    c.facts.append(((nm,), lambda e: z3.Implies(
        z3.And(e.arg(0) >= 0, e.arg(0) < Bd.T_int(n)), z3.And(
            e >= 0, e < Bd.T_int(m), Q(e) == e.arg(0)))))
    c.trust("scipy.optimize.linear_sum_assignment: distinct columns for the "
            "rows, with the least (or greatest) total")
    rows = ops.f_arange(T.mkint(n) if not isinstance(n, int) else n)
    cols = A.build((n,), I8, lambda ix: SInt(P(Bd.T_int(ix[0])), I8))
    ASSIGN.append((a.copy(), bool(maximize), cols))
    return rows, cols
