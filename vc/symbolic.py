"""Symbolic evaluation of the contracts: every path of the contract and of
the real code is executed on unbounded symbolic inputs and every ``ensure``
becomes a proof obligation."""
from __future__ import annotations

import builtins
import contextlib
import itertools
import math
import os
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import arrays as A
from . import binders as Bd
from . import invariants
from . import load as load_mod
from . import loop as L
from . import norm
from . import ops
from . import solve
from . import terms as T
from .arrays import SArr, as_int
from .contract import REG, SUMMARIES
from .terms import (SBool, SComplex, SInt, SReal, SStruct, Unsupported,
                    b_and, b_not, b_or, ctx)

F8, I8, B1 = A.F8, A.I8, A.B1
FALLBACK = (0, 1, 2, 3)
NPX = [None]


class SIn:
    """A drawn array."""

    def __init__(self, cx, name, shape, dtype, cell):
        self.cx, self.name = cx, name
        self._shape, self._dt, self._cell = tuple(shape), np.dtype(dtype), \
            cell
        self.arr = self.fresh()
        self.version = getattr(self.arr.buf, "version", 0)

    def fresh(self):
        return A.build(self._shape, self._dt, self._cell)

    def at(self, *idx):
        if any(type(i) is SBool for i in idx):
            raise Unsupported("Boolean index")
        v = self._cell(tuple(as_int(i) for i in idx))
        return pyval(v)

    @property
    def shape(self):
        return tuple(T.mkint(s) if not isinstance(s, int) else s
                     for s in self._shape)

    @property
    def dtype(self):
        return self._dt


def pyval(v):
    if type(v) is SReal:
        return SReal(v.v, v.nan, v.pinf, v.ninf, False)
    return v


class SymbolicCx:
    symbolic = True
    concrete = False

    def __init__(self, g, lengths=None):
        self.g = g
        self.np = np_proxy()
        self.lengths = lengths
        self.drawn = {}
        self.spec = {}               # for counter-models
        self.inf, self.nan = math.inf, math.nan
        self.pi = math.pi
        self.scale = 1.0

    @property
    def rng(self):
        raise Unsupported("the contract draws random numbers")

    # ------------------------------------------------------------- inputs
    def _new(self, name, v, spec):
        if name in self.drawn:
            raise KeyError("drawn twice: " + name)
        self.drawn[name] = v
        self.spec[name] = spec
        return v

    def size(self, name="n", lo=0, hi=None, cap=None):
        c = ctx()
        if self.lengths is not None:
            opts = [n for n in self.lengths if n >= lo and
                    (hi is None or n <= hi)]
            if not opts:
                opts = [lo]
            n = opts[c.choose(len(opts))]
            return self._new(name, n, ("const", n))
        e = z3.Int(name)
        c.assume(e >= lo)
        if hi is not None:
            c.assume(e <= hi)
        return self._new(name, SInt(e), ("int", e, lo))

    def bounded(self, name, lo, hi):
        e = z3.Int(name)
        ctx().assume(b_and(T.i_le(as_int(lo), e), T.i_le(e, as_int(hi))))
        return self._new(name, SInt(e), ("int", e))

    def real(self, name, lo=None, hi=None, special=()):
        e = z3.Real(name)
        return self._new(name, SReal(e, py=True), ("real", e))

    def int(self, name, lo=-5, hi=5, special=()):
        e = z3.Int(name)
        return self._new(name, SInt(e), ("int", e))

    def private(self, path, nparams):
        """An internal function, if it is there with that signature."""
        hit = load_mod.find(self.g, path)
        if hit is None or load_mod.nparams(hit[2]) != nparams:
            raise Unsupported(f"{path} is not there")
        return hit[2]

    def index(self, name, n):
        e = z3.Int("idx_" + name)
        n = as_int(n)
        ctx().assume(T.i_lt(0, n))
        ctx().assume(b_and(e >= 0, T.i_lt(e, n)))
        return self._new(name, SInt(e), ("int", e))

    def bool(self, name):
        e = z3.Bool(name)
        v = ctx().decide(e)
        return self._new(name, v, ("const", v))

    def pick(self, name, options):
        options = list(options)
        i = ctx().choose(len(options))
        self._new(name, i, ("const", i))
        return options[i]

    def _shape(self, shape):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return tuple(as_int(s) for s in shape)

    def _cells(self, name, shape, base, wrap):
        nd = len(shape)

        def cell(ix):
            # trailing concrete axes give separate symbols
            tag, args = [], []
            for i, s in zip(ix, shape):
                if isinstance(s, int) and isinstance(i, int) and s <= 8:
                    tag.append(str(i))
                else:
                    tag.append("_")
                    args.append(Bd.T_int(i))
            if any(isinstance(s, int) and s <= 8 and not isinstance(i, int)
                   for i, s in zip(ix, shape)):
                # a symbolic index into a short axis
                j = next(j for j, (i, s) in enumerate(zip(ix, shape))
                         if isinstance(s, int) and s <= 8 and
                         not isinstance(i, int))
                out = None
                for v in builtins.range(shape[j]):
                    e = cell(tuple(ix[:j]) + (v,) + tuple(ix[j + 1:]))
                    out = e if out is None else T.ite(
                        T.b_z3(T.i_eq(ix[j], v)), e, out)
                if out is None:
                    return wrap(z3.Const(name + "_none", base))
                return out
            nm = name + "." + ".".join(tag) if nd else name
            if not args:
                return wrap(z3.Const(nm, base))
            return wrap(T.fn(nm, *([T.I] * len(args)), base)(*args))
        return cell

    def floats(self, name, shape, lo=None, hi=None, special=()):
        shape = self._shape(shape)
        s = SIn(self, name, shape, F8,
                self._cells(name, shape, T.R, SReal))
        return self._new(name, s, ("array", shape, "f", name))

    def xfloats(self, name, shape):
        """Any floats, NaN and the infinities included."""
        shape = self._shape(shape)
        val, *flags = [self._cells(name + t, shape, b, lambda e: e)
                       for t, b in (("", T.R), ("?n", T.B), ("?p", T.B),
                                    ("?m", T.B))]

        def cell(ix):
            n, p, m = (f(ix) for f in flags)
            return SReal(val(ix), n, z3.And(p, z3.Not(n)),
                         z3.And(m, z3.Not(n), z3.Not(p)))
        return self._new(name, SIn(self, name, shape, F8, cell),
                         ("array", shape, "f", name))

    def ints(self, name, shape, dtype="<i4", lo=-9, hi=9, pool=None):
        shape = self._shape(shape)
        dt = np.dtype(dtype)
        s = SIn(self, name, shape, dt, self._cells(
            name, shape, T.I, lambda e: SInt(e, dt)))
        return self._new(name, s, ("array", shape, "i", name))

    def indices(self, name, m, n):
        """m positions of a sequence of length n."""
        m, n = as_int(m), as_int(n)
        s = self.ints(name, m, "<i8")
        f = f"{name}._" if not isinstance(m, int) or m > 8 else None
        if f is not None:
            ctx().facts.append(((f,), lambda e: T.b_and(
                e >= 0, T.i_lt(e, n))))
        else:
            for j in builtins.range(m):
                e = s.at(j).e
                ctx().assume(T.b_and(e >= 0, T.i_lt(e, n)))
        return s

    def bools(self, name, shape):
        shape = self._shape(shape)
        s = SIn(self, name, shape, B1, self._cells(
            name, shape, T.B, lambda e: T.mkbool(e)))
        return self._new(name, s, ("array", shape, "b", name))

    def momenta(self, name, n, kind="any", tiny=True):
        shape = self._shape((n, 4))
        s = SIn(self, name, shape, F8, self._cells(name, shape, T.R, SReal))
        if kind != "any":
            def law(k):
                x, y, z, e = (s.at(k, j).v for j in builtins.range(4))
                p2 = x * x + y * y + z * z
                r = [e >= 0, e * e >= p2]
                # consequences
                r += [e >= z, e >= -z]
                if kind == "timelike":
                    r += [e * e > p2, e > 0, e > z, e > -z]
                if kind in ("moving", "transverse"):
                    r += [p2 > 0, e > 0]
                if kind == "transverse":
                    r += [x * x + y * y > 0, e > z, e > -z]
                return z3.And(*r)
            self.each_row(s, name, shape, law)
        return self._new(name, s, ("array", shape, "f", name))

    def each_row(self, s, name, shape, law):
        """law(k) holds for every row of a drawn (n, 4) array."""
        n = shape[0]
        if isinstance(n, int) and n <= 8:
            for k in builtins.range(n):
                ctx().assume(law(k))
            return
        names = tuple(f"{name}._.{j}" for j in builtins.range(4))
        done = set()

        def fact(e):
            k = e.arg(0)
            return z3.Implies(z3.And(k >= 0, T.b_z3(T.i_lt(k, n))), law(k))
        ctx().facts.append((names, fact))

    def strings(self, name, n):
        n = as_int(n)
        if not isinstance(n, int):
            raise Unsupported("symbolically many strings")
        return [f"m{i}" for i in builtins.range(n)]

    # ------------------------------------------------------- preconditions
    def assume(self, c):
        e = T.bool_e(c)
        if e is not True and not ctx().feasible(T.b_z3(e)):
            raise T.Infeasible()
        ctx().assume(e)
    assume_here = assume

    def assume_at(self, k, c):
        self.assume(c)

    def forall(self, n, f):
        """Precondition: f(k) for every k in [0, n)."""
        n = as_int(n)
        if isinstance(n, int):
            for k in builtins.range(n):
                self.assume(f(k))
            return
        k = Bd.index_var("all")
        body = T.b_z3(T.bool_e(f(SInt(k))))
        names = tuple(sorted({t.decl().name() for t in
                              solve.subterms([body]) if solve.is_uf(t) and
                              any(a.eq(k) for a in t.children()) and
                              "." in t.decl().name()}))

        def fact(e):
            a = e.arg(0)
            return z3.Implies(z3.And(a >= 0, T.b_z3(T.i_lt(a, n))),
                              z3.substitute(body, (k, a)))
        ctx().facts.append((names, fact))

    # ---------------------------------------------------------- quantifiers
    def each(self, n, name="k"):
        n = as_int(n)
        if isinstance(n, int):
            yield from builtins.range(n)
            return
        c = ctx()
        mk = c.mark()
        k = Bd.index_var(name)
        c.assume(z3.And(k >= 0, k < Bd.T_int(n)))
        yield SInt(k)
        keep = c.path[mk[2]:]
        c.reset(mk)
        # decisions taken inside stay on the path
        for d in keep:
            pass

    def _in_range(self, n, f):
        """f, with its index known to lie in [0, n)."""
        n = as_int(n)

        def g(k):
            c = ctx()
            if isinstance(k, int) and isinstance(n, int):
                return f(k)
            mk = c.mark()
            try:
                c.assume(b_and(T.i_le(0, k), T.i_lt(k, n)))
                return f(T.mkint(k))
            finally:
                c.reset(mk)
        return g

    def sum(self, n, f):
        f = self._in_range(n, f)
        return ops.sum_fold(as_int(n), lambda k: T.to_real(f(k)))

    def count(self, n, f):
        f = self._in_range(n, f)
        return T.mkint(Bd.count_term(as_int(n), lambda k: T.bool_e(f(k))))

    def any(self, n, f):
        f = self._in_range(n, f)
        return T.mkbool(Bd.any_term(as_int(n), lambda k: T.bool_e(f(k))))

    def all(self, n, f):
        f = self._in_range(n, f)
        return T.mkbool(Bd.all_term(as_int(n), lambda k: T.bool_e(f(k))))

    @contextlib.contextmanager
    def opaque_matrix(self, path, shape):
        """Calls of the internal function give an arbitrary matrix of
        floats, the same for the same operands: what the caller does is
        judged for every matrix.  Yields the operands of each call."""
        mod, name = path.rsplit(".", 1)
        owner = self.g
        for part in mod.split(".")[1:]:
            owner = getattr(owner, part, None)
        real = getattr(owner, name, None)
        if real is None:
            raise Unsupported(f"{path} is gone")
        calls, known = [], []

        def stub(*args):
            for old, out in known:
                if len(old) == len(args) and all(
                        p is q for p, q in builtins.zip(old, args)):
                    return out.copy()
            out = self.floats(T.fresh_name("matrix"), shape).arr
            known.append((args, out))
            calls.append((tuple(x.copy() if type(x) is SArr else x
                                for x in args), out.copy()))
            return out.copy()
        setattr(owner, name, stub)
        try:
            yield calls
        finally:
            setattr(owner, name, real)

    def needs(self, cond, what):
        """The contract only speaks about code of this form."""
        if not bool(cond):
            raise Unsupported(f"not of the form: {what}")

    @contextlib.contextmanager
    def assignments(self):
        """Records (matrix, maximize, columns) of the assignments solved."""
        from . import sparse
        sparse.ASSIGN.clear()
        yield sparse.ASSIGN

    def closed_set(self, n, e, v):
        """An arbitrary set of vertices that has v and is closed under the
        edges (a ghost: the instance of induction the proof uses)."""
        S = z3.Function(T.fresh_name("closed"), T.I, T.B)
        at = lambda i: T.b_z3(S(Bd.T_int(T.int_e(i))))
        ctx().assume(at(v))
        if not hasattr(ctx(), "closed_sets"):
            ctx().closed_sets = []
        ctx().closed_sets[:] = [lambda j, w: at(e._cell((j, w)))]
        self.forall(n, lambda k: self.implies(
            SBool(at(e.at(k, 0))), SBool(at(e.at(k, 1)))))
        return lambda x: SBool(at(x))

    # ---------------------------------------------------------------- logic
    def And(self, *a):
        return T.mkbool(b_and(*[T.bool_e(x) for x in a]))

    def Or(self, *a):
        return T.mkbool(b_or(*[T.bool_e(x) for x in a]))

    def Not(self, a):
        return T.mkbool(b_not(T.bool_e(a)))

    def implies(self, a, b):
        e = T.bool_e(a)
        if e is False:
            return True
        if callable(b):
            c = ctx()
            mk = c.mark()
            try:
                c.assume(e)
                b = b()
            except T.Infeasible:
                b = True
            finally:
                c.reset(mk)
        return T.mkbool(T.b_implies(e, T.bool_e(b)))

    def iff(self, a, b):
        return T.mkbool(T.bool_iff(T.bool_e(a), T.bool_e(b)))

    def ite(self, c, a, b):
        e = T.bool_e(c)
        if callable(a):
            a = a() if e is not False else None
        if callable(b):
            b = b() if e is not True else None
        return T.ite(e, a, b)

    # ---------------------------------------------------------------- reals
    def sqrt(self, x):
        return T.x_sqrt(T.to_real(x))

    def sin(self, x):
        return T.x_sin(T.to_real(x))

    def cos(self, x):
        return T.x_cos(T.to_real(x))

    def exp(self, x):
        return T.x_exp(T.to_real(x))

    def expm1(self, x):
        return T.x_expm1(T.to_real(x))

    def cosh(self, x):
        return T.x_cosh(T.to_real(x))

    def sinh(self, x):
        return T.x_sinh(T.to_real(x))

    def log(self, x):
        return T.x_log(T.to_real(x))

    def atanh(self, x):
        return T.x_atanh(T.to_real(x))

    def atan2(self, y, x):
        return T.x_atan2(T.to_real(y), T.to_real(x))

    def hypot(self, x, y):
        return T.x_hypot(T.to_real(x), T.to_real(y))

    def power(self, x, a):
        return T.x_pow(T.to_real(x), a)

    def div(self, a, b):
        a, b = T.to_real(a), T.to_real(b)
        return T.x_div(SReal(a.v, a.nan, a.pinf, a.ninf),
                       SReal(b.v, b.nan, b.pinf, b.ninf))

    def abs(self, x):
        return abs(x)

    def isfinite(self, x):
        x = T.to_real(x)
        return T.mkbool(b_not(T.b_or(x.nan, x.pinf, x.ninf)))

    def isnan(self, x):
        return T.mkbool(T.to_real(x).nan)

    def wrap(self, a):
        a = T.to_real(a)
        return T.x_atan2(T.x_sin(a), T.x_cos(a))

    def lt(self, a, b):
        return a < b

    def real_of(self, i):
        return T.to_real(i)

    # ------------------------------------------------------------- equality
    def eq(self, a, b, scale=0.0, tol=1e-9):
        a, b = scal(a), scal(b)
        if cplx(a) or cplx(b):
            a, b = T.to_complex(a), T.to_complex(b)
            return T.mkbool(b_and(T.same(a.re, b.re), T.same(a.im, b.im)))
        if T.is_intlike(a) and T.is_intlike(b):
            return T.mkbool(T.i_eq(as_int(a), as_int(b)))
        return T.mkbool(T.same(a, b))

    def angle_eq(self, a, b, tol=1e-9):
        a, b = T.to_real(scal(a)), T.to_real(scal(b))
        fin = b_and(a.finite_flag(), b.finite_flag())
        sa, sb = T.x_sin(a), T.x_sin(b)
        ca, cb = T.x_cos(a), T.x_cos(b)
        return T.mkbool(b_and(
            T.bool_iff(a.finite_flag(), b.finite_flag()),
            T.b_implies(fin, b_and(T.r_eq(sa.v, sb.v),
                                   T.r_eq(ca.v, cb.v)))))

    def same(self, a, b):
        a, b = scal(a), scal(b)
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        if type(a) is SStruct or type(b) is SStruct:
            return self.And(*[self.same(x, y) for x, y in zip(a.vals,
                                                              b.vals)])
        if boolish(a) and boolish(b):
            return T.mkbool(T.bool_iff(T.bool_e(a), T.bool_e(b)))
        return self.eq(a, b)

    def near(self, a, b, tol):
        return self.eq(a, b)

    # -------------------------------------------------------- postconditions
    def ensure(self, name, cond, detail=None):
        if type(cond) is SArr:
            cond = cond[()] if cond.ndim == 0 else ops.reduce_all(cond, None)
        ctx().prove(name, T.bool_e(cond))

    def ensure_shape(self, name, a, shape):
        got = tuple(as_int(s) for s in self.np.shape(a))
        want = tuple(as_int(s) for s in shape)
        self.ensure(name + ".shape", len(got) == len(want) and T.mkbool(
            b_and(*[eq_int(x, y) for x, y in zip(got, want)])))

    def ensure_len(self, name, a, n):
        self.ensure(name + ".len", T.mkbool(eq_int(
            as_int(load_mod._len(a)), as_int(n))))

    def ensure_array(self, name, a, shape, f, exact=True, scale=0.0,
                     tol=1e-9):
        self.ensure_shape(name, a, shape)
        a = ops.asarray(a)
        loops = [self.each(s) for s in shape]

        def rec(j, idx):
            if j == len(shape):
                got = a[idx] if idx else a[()]
                self.ensure(name, self.same(got, f(*idx)))
                return
            for k in self.each(shape[j]):
                rec(j + 1, idx + (k,))
        rec(0, ())

    def unchanged(self, name, cin):
        a = cin.arr
        ok = type(a) is SArr and getattr(a.buf, "version", 0) == cin.version
        if ok:
            self.ensure(name + ".unchanged", True)
            return
        if type(a) is not SArr:
            raise Unsupported("unchanged of a foreign array")

        def rec(j, idx):
            if j == len(cin._shape):
                self.ensure(name + ".unchanged", self.same(
                    a[idx], cin.at(*idx)))
                return
            for k in self.each(cin._shape[j]):
                rec(j + 1, idx + (k,))
        rec(0, ())

    def watch(self, a):
        """An array now, to be compared later."""
        a = ops.asarray(a)
        return a, getattr(a.buf, "version", 0), a.copy()

    def intact(self, name, w):
        a, version, snap = w
        if getattr(a.buf, "version", 0) == version:
            self.ensure(name, True)
        else:
            self.ensure(name, self.same_bytes(a, snap))

    def dtype_is(self, a, dt):
        return ops.asarray(a).dtype == np.dtype(dt)

    def same_bytes(self, a, b):
        a, b = ops.asarray(a), ops.asarray(b)
        if a.ndim != b.ndim:
            return False
        shape = b_and(*[eq_int(x, y) for x, y in zip(a.ishape, b.ishape)])
        if shape is False:
            return False
        fa, fb = a.freeze(), b.freeze()

        def rec(j, idx):
            if j == a.ndim:
                return T.bool_e(self.same(fa(idx), fb(idx)))
            return Bd.all_term(a.ishape[j], lambda k: rec(j + 1, idx + (k,)))
        return T.mkbool(b_and(shape, rec(0, ())))

    def shares(self, a, b):
        a, b = ops.asarray(a), ops.asarray(b)
        if a.buf is not b.buf:
            return False
        return T.mkbool(b_and(*[T.i_lt(0, s) for x in (a, b)
                                for s in x.ishape]))

    def same_index(self, i, j):
        return T.mkbool(eq_int(as_int(i), as_int(j)))

    def copy_of(self, cin):
        return cin.fresh()

    def structured(self, fields, dt):
        names = list(fields)
        cols = [fields[k] for k in names]
        rdt = np.dtype([(k, dt) for k in names])
        return A.build(cols[0]._shape, rdt, lambda ix: SStruct(
            tuple(names), [c._cell(ix) for c in cols], rdt))

    def selects(self, name, n, sel, out, f, same=None):
        n = as_int(n)
        s = Bd.Selection(n, lambda i: T.bool_e(sel.at(T.mkint(i))))
        self.ensure(name + ": count", T.mkbool(eq_int(
            as_int(load_mod._len(out)), s.count)))
        for k in self.each(T.mkint(s.count)):
            i = T.mkint(s.sel(as_int(k)))
            got, want = out[k], f(i)
            self.ensure(name, same(got, want) if same else
                        self.same(got, want))

    def raises(self, exc, thunk):
        c = ctx()
        c.filters.append(["ignore"])
        try:
            thunk()
        except exc as e:
            return e
        finally:
            c.filters.pop()
        return None

    def warnings(self, thunk):
        c = ctx()
        c.filters.append([])
        mk = len(c.warned)
        try:
            r = thunk()
        finally:
            c.filters.pop()
        w = c.warned[mk:]
        del c.warned[mk:]
        return r, w

    def quiet(self, thunk):
        c = ctx()
        c.filters.append(["ignore"])
        try:
            return thunk()
        finally:
            c.filters.pop()

    # ------------------------------------------------------- optimisation
    def minimize_calls(self, thunk):
        load_mod.MINIMIZE.clear()
        r = self.quiet(thunk)
        return r, [SymMin(self, *c) for c in load_mod.MINIMIZE]

    def derivative(self, f, at, j):
        from . import deriv
        x = T.to_real(at[j]).v
        v = T.to_real(f(*at))
        if v.special():
            raise Unsupported("derivative of a special value")
        return SReal(deriv.diff(v.v, x))

    # ------------------------------------------------- internal contracts
    def require(self, name, cond):
        """The precondition of a contract used at a call."""
        ctx().prove("precondition of " + name, T.bool_e(cond),
                    kind="requires")
        ctx().assume(T.bool_e(cond))

    def opaque(self, name, v):
        """A number known to equal v; the contract says it is finite."""
        v = T.to_real(v)
        bad = T.b_or(v.nan, v.pinf, v.ninf)
        if bad is not False:
            ctx().assume(T.b_not(bad))
        r = T.fresh_real(name)
        ctx().assume(r == v.v)
        return SReal(r, py=True)

    def rows(self, n, f):
        """An (n, 4) array with the rows f(k)."""
        def cell(ix):
            v = f(T.mkint(ix[0]))
            if isinstance(ix[1], int):
                return v[ix[1]]
            r = v[3]
            for j in (2, 1, 0):
                r = T.ite(T.i_eq(ix[1], j), v[j], r)
            return r
        return A.build((as_int(n), 4), F8, cell)

    def vector(self, n, f):
        """An array with the elements f(k)."""
        f = self._in_range(n, f)
        return A.build((as_int(n),), F8, lambda ix: T.to_real(f(ix[0])))

    def matrix(self, n, m, f):
        """An (n, m) array with the cells f(i, j)."""
        return A.build((as_int(n), as_int(m)), F8, lambda ix: T.to_real(
            f(T.mkint(ix[0]), T.mkint(ix[1]))))

    def rule(self, kind, trip, *args):
        """The invariant of the loop repeated ``trip`` times."""
        from . import invariants
        ctx().loop_rule = getattr(invariants, kind)(self, as_int(trip),
                                                    *args)

    # ---------------------------------------------------------- special
    def as_numpy(self, s):
        return SReal(s.v, s.nan, s.pinf, s.ninf, False)

    def scalar_ufunc(self, f, *args):
        if isinstance(f, str):
            f = getattr(self.np, f)
        r = f(*[ops.asarray(a) if type(a) is SArr else
                as_np_scalar(a) for a in args])
        return r

    def assume_affinity(self, a, n):
        """Zero diagonal, positive elsewhere."""
        n = as_int(n)
        if isinstance(n, int):
            for i in builtins.range(n):
                for j in builtins.range(n):
                    v = a.at(i, j).v
                    self.assume(T.mkbool(v == 0 if i == j else v > 0))
            if n <= 8:
                return

        def fact(e):
            i, j = e.children()
            ok = z3.And(*[z3.And(x >= 0, x < Bd.T_int(n)) for x in (i, j)])
            return z3.Implies(ok, z3.And(
                z3.Implies(i == j, e == 0), z3.Implies(i != j, e > 0)))
        ctx().facts.append(((f"{a.name}._._",), fact))

    def direction_law(self, p, n):
        """Each momentum is |p| times the direction of cos(theta) = 1 - 2 A
        and azimuth 2 pi B (up to orientation), for two draws A and B of its
        own which neither its energy nor the size of |p| depends on."""
        from . import solve
        for k in self.each(n):
            x, y, z, e = (T.to_real(getattr(p, c)[k])
                          for c in ("x", "y", "z", "energy"))
            found = self._axis_draws(x, y, z, e, n, k)
            if found is None:
                raise Unsupported("no two draws give the direction")
            for what, law, v in found:
                self.ensure(what, T.mkbool(T.same(law, v)))

    def _axis_draws(self, x, y, z, e, n, k):
        from . import solve

        def proved(law, v):
            g = T.b_z3(T.same(law, v))
            return solve.go(list(ctx().assumptions), g, 4.0,
                            solve.Budget(12), 0)[0] == "proved"
        full = [(f, f(s, Bd.T_int(as_int(k)))) for f, s, m in ctx().draws
                if A.same_int(m, as_int(n)) is True]
        for fa, a in full:
            for fb, b in full:
                mag = z3.substitute(z.v, (a, T.ZERO))
                if fa.eq(fb) or any(
                        z3.is_app(t) and (t.decl().eq(fa) or t.decl().eq(fb))
                        for t in solve.subterms([mag, e.v])):
                    continue
                r = SReal(mag)
                sn = SReal(2 * T.x_sqrt(SReal(a - a * a)).v)
                laws = [("cos(theta) = 1 - 2 A",
                         r * (SReal(T.ONE) - SReal(2 * a)), z)]
                if not proved(*laws[0][1:]):
                    continue
                for c, g, v in ((T.x_cos, "x", x), (T.x_sin, "y", y)):
                    for sg, w in ((1, 1), (-1, 1), (1, 0), (-1, 0)):
                        f = SReal(2 * T.PI * b - w * T.PI)
                        law = SReal(T.ONE * sg) * r * sn * c(f)
                        if proved(law, v):
                            laws.append((f"{g} of the azimuth 2 pi B", law,
                                         v))
                            break
                if len(laws) == 3:
                    return laws
        return None


class SymMin:
    """A call of scipy.optimize.minimize over two axis angles."""

    def __init__(self, cx, args, kw, result):
        names = ("fun", "x0", "args", "method", "jac", "hess", "hessp",
                 "bounds")
        a = dict(zip(names, args), **kw)
        self.f, self.jac = a["fun"], a.get("jac")
        self.args = a.get("args", ())
        if not isinstance(self.args, tuple):
            self.args = (self.args,)
        self.bounds = a.get("bounds")

    def value(self, u, v):
        r = self.f(ops.asarray([u, v]), *self.args)
        return scal(r[0] if self.jac is True else r)

    def gradient(self, u, v, j):
        x = ops.asarray([u, v])
        if self.jac is True:
            return scal(self.f(x, *self.args)[1][j])
        if callable(self.jac):
            return scal(self.jac(x, *self.args)[j])
        return None

    def covers_hemisphere(self):
        """Half a turn in both angles covers every line through 0; so does a
        full turn of the azimuth with a right angle from the pole."""
        b = self.bounds
        if b is None:
            return True
        try:
            (a, b), (c, d) = [[number(x) for x in row] for row in b]
        except (TypeError, ValueError):
            raise Unsupported("bounds of the minimisation")
        eps = 1e-12
        if b - a >= math.pi - eps and d - c >= math.pi - eps:
            return True
        if b - a >= 2 * math.pi - eps and (
                (c <= eps and d >= math.pi / 2 - eps) or
                (c <= -math.pi / 2 + eps and d >= -eps)):
            return True
        raise Unsupported("the bounds may not cover a hemisphere")


def number(x):
    """The float of a constant term (with pi)."""
    if x is None:
        raise ValueError
    e = z3.simplify(z3.substitute(T.to_real(x).v, (
        T.PI, T.real_const(Fraction(math.pi)))))
    if not z3.is_rational_value(e):
        raise ValueError
    return float(e.as_fraction())


def as_np_scalar(a):
    if type(a) is SReal:
        return SReal(a.v, a.nan, a.pinf, a.ninf, False)
    if type(a) is SInt and a._dt is None:
        return SInt(a.e, I8)
    return a


def scal(a):
    if type(a) is SArr:
        return a[()] if a.ndim == 0 else load_mod.scalar_of(a)
    if isinstance(a, np.ndarray) and type(a) is np.ndarray and a.ndim == 0:
        return a.item()
    return a


def cplx(a):
    return type(a) is SComplex or isinstance(a, complex)


def boolish(a):
    return type(a) in (SBool, bool, np.bool_)


def eq_int(a, b):
    q = A.same_int(a, b)
    if isinstance(q, bool):
        return q
    return T.i_eq(a, b)


_np = None


def np_proxy():
    global _np
    if _np is None:
        _np = load_mod.NpModule(np)
    return _np


# ================================================================== driver
def preload():
    """Imports shared by the forked verifier processes."""
    import numba            # noqa: F401
    import pandas           # noqa: F401
    import scipy.optimize   # noqa: F401
    import awkward          # noqa: F401


def parts(c):
    return ["all"]


class GiveUp(Exception):
    pass


def run_paths(c, repo, lengths, end, max_paths=3000, sums=()):
    """Execute every path; the context with all obligations."""
    ld = load_mod.load(repo)
    g = ld.g
    body = load_mod.load_contract(ld, c)
    cx_ = T.Ctx()
    cur = [None]
    H, T.H.ctx = T.H.ctx, None
    for s in sums:
        load_mod.apply_summary(ld, s, lambda: cur[0])
    T.H.ctx = cx_
    ex = cx_.explorer
    cx_.deadline = end
    npaths = 0
    specs = []
    while ex.next_prefix():
        if time.time() > end:
            raise GiveUp("time budget for path exploration used up")
        npaths += 1
        if npaths > max_paths:
            raise GiveUp("too many paths")
        reset_path(cx_)
        cx = cur[0] = SymbolicCx(g, lengths)
        first = len(cx_.obligations)
        Unsupported.last = None
        try:
            body(cx)
        except T.Infeasible:
            pass
        except T.PathEnd:
            pass
        except Unsupported:
            raise
        except Exception as e:
            if Unsupported.last is not None:
                raise Unsupported(Unsupported.last)
            x = e
            while x is not None:        # the engine's own trouble
                if isinstance(x, (z3.Z3Exception, norm.TooBig,
                                  RecursionError, MemoryError)):
                    raise Unsupported(f"{type(x).__name__}: {x}")
                x = x.__context__
            tb = traceback.format_exc(limit=-3)
            ob = cx_.prove(f"does not raise {type(e).__name__}", False,
                           kind="exception")
            ob.detail = f"{e}\n{tb}"
        if Unsupported.last is not None:
            raise Unsupported(Unsupported.last)
        cx_.on_time()
        for ob in cx_.obligations[first:]:
            ob.path = (cx.spec, list(cx_.facts), list(getattr(
                cx_, "perms", ())))
    cx_.deadline = None
    return cx_, npaths


def reset_path(c):
    c.assumptions = []
    c.known = {}
    c.path = []
    c.loops = []
    c.filters = [[]]
    c.warned = []
    c.in_njit = 0
    c.facts = []
    c.loop_rule = None
    c._minimize = []
    c.perms = []
    c.draws = []
    c.epoch = next(T._counter)
    load_mod.MINIMIZE.clear()
    load_mod.Threads.n = None
    c.sizes = []


def verify(c, part, repo, tier, seed):
    """Discharge the obligations of one contract."""
    t0 = time.time()
    limit = c.timeout if tier == "quick" else 6 * c.timeout
    out = dict(obligations=[], trusted=[], assumed=[], functions=[],
               unsupported=None, bound=None)
    lengths = c.lengths
    why = None
    sums = []
    for path in c.uses:
        sm = SUMMARIES[path]
        pc = [x for x in REG if x.key == sm.proved_by][0]
        r = verify(pc, part, repo, tier, seed)
        if r["unsupported"] is None and r["obligations"] and all(
                o["status"] == "proved" for o in r["obligations"]) and \
                not r["bound"]:
            sums.append(sm)
            for o in r["obligations"]:
                o["name"] = f"[{pc.name}] " + o["name"]
            out["obligations"] += r["obligations"]
            out["functions"] += r["functions"]
            out["trusted"] += r["trusted"]
    c_fns, c_tr = out["functions"], out["trusted"]
    t0 = time.time()
    try:
        cx_, npaths = run_paths(c, repo, lengths, t0 + limit * 0.5,
                                sums=sums)
    except (Unsupported, GiveUp, T.OutOfTime, norm.TooBig, RecursionError) as e:
        why = f"{type(e).__name__}: {e}"
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
        cx_ = None
    if cx_ is None and lengths is None:
        try:
            lengths = FALLBACK
            cx_, npaths = run_paths(c, repo, lengths, time.time() +
                                    limit * 0.4, sums=sums)
        except (Unsupported, GiveUp, T.OutOfTime, norm.TooBig, RecursionError) as e:
            why += f"; with lengths {FALLBACK}: {type(e).__name__}: {e}"
            if os.environ.get("VC_TRACE"):
                traceback.print_exc()
            cx_ = None
    if cx_ is None:
        out["unsupported"] = why
        return out
    if lengths is not None:
        out["bound"] = "array lengths " + ", ".join(map(str, lengths)) + \
            (f" ({why})" if why else "")
    out["functions"] = sorted(cx_.callee | set(c_fns))
    out["trusted"] = sorted(cx_.trusted | set(c_tr))
    end = time.time() + limit
    to = 8.0 if tier == "quick" else 40.0
    seen = {}
    for ob in cx_.obligations:
        spec, facts, perms = ob.path
        key = (ob.name, ob.goal if isinstance(ob.goal, bool) else
               ob.goal.get_id(), tuple(h.get_id() for h in ob.hyps))
        if key in seen:
            continue
        seen[key] = ob
        cx_.assumptions, cx_.known, cx_.loops = list(ob.hyps), {}, []
        cx_.facts, cx_.perms = facts, perms
        for h in ob.hyps:
            cx_._know(h, True)
        left = end - time.time()
        detail0 = ob.detail
        if left < 0.5:
            ob.status, ob.backend, ob.detail = "unknown", "z3+cvc5", \
                "time budget used up"
        else:
            solve.prove(ob, to, solve.Budget(min(left, 8 * to)))
        if os.environ.get("VC_GOAL") and ob.status != "proved":
            print("---", ob.name, ob.status, ob.detail)
            for h in ob.hyps:
                print("  H", h)
            print("  G", ob.goal)
            print("  C", solve.safe_canon(T.b_z3(ob.goal)))
        row = dict(name=ob.name, status=ob.status, backend=ob.backend,
                   time=round(ob.time, 4), detail=(ob.detail or "") + (
                       " " + detail0 if detail0 else ""), kind=ob.kind)
        if ob.status != "proved" and ob.model:
            try:
                row["inputs"] = concretise(ob, spec)
            except Exception as e:
                row["detail"] += f" (no inputs: {type(e).__name__}: {e})"
        if ob.status == "failed" and ob.kind in ("requires", "invariant"):
            row["status"] = "unknown"     # of the proof, not of the code
        if ob.status == "failed" and ob.kind == "exception":
            # exceptions count only when replayed
            row["status"] = "failed" if "inputs" in row else "unknown"
        out["obligations"].append(row)
        if ob.status != "proved" and ob.kind == "invariant":
            label = ob.name[len("invariant: "):]
            for w in (" holds at entry", " is preserved"):
                label = label.removesuffix(w)
            if label in invariants.CANDIDATES and \
                    label not in invariants.DROPPED:
                # not inductive: verified again without it
                invariants.DROPPED.add(label)
                return verify(c, part, repo, tier, seed)
    return out


# ---------------------------------------------------------- counter-models
def val(m, e, default=None):
    v = m.eval(e, model_completion=False)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return default


def concretise(ob, spec):
    if ob.model is None or ob.model[0] is None:
        raise ValueError("no model")
    (m, ab), fs, axs = ob.model
    forced = {}
    dims = {}
    for name, s in spec.items():
        if s[0] == "const":
            forced[name] = s[1]
        elif s[0] == "int":
            forced[name] = val(m, ab.run(s[1]), s[2] if len(s) > 2 else 0)
        elif s[0] == "real":
            forced[name] = val(m, ab.run(s[1]), 1.0)
    for name, s in spec.items():
        if s[0] != "array":
            continue
        _, shape, kind, sym = s
        sh = tuple(d if isinstance(d, int) else val(m, ab.run(d), 0)
                   for d in shape)
        if any(d < 0 or d > 40 for d in sh):
            raise ValueError(f"shape {sh}")
        size = int(np.prod(sh)) if sh else 1
        if kind == "f":
            a = np.arange(1.0, size + 1.0).reshape(sh)
            if len(sh) == 2 and sh[1] == 4:
                a = np.tile(np.array([1.0, 2.0, 3.0, 5.0]), (sh[0], 1))
        elif kind == "i":
            a = np.arange(1, size + 1).reshape(sh)
        else:
            a = np.zeros(sh, dtype=bool)
        for fname, lst in ab.apps.items():
            if not fname.startswith(sym + "."):
                continue
            tags = fname[len(sym) + 1:].split(".")
            if len(tags) != len(sh):
                continue
            for const, ch, e in lst.values():
                it = iter(ch)
                ix = tuple(int(t) if t != "_" else val(m, next(it), -1)
                           for t in tags)
                if all(0 <= i < d for i, d in zip(ix, sh)):
                    v = val(m, const)
                    if v is not None:
                        a[ix] = v
        for ix in np.ndindex(*sh):
            nm = sym + "." + ".".join(map(str, ix))
            c = {"f": z3.Real, "i": z3.Int, "b": z3.Bool}[kind](nm)
            v = val(m, c)
            if v is not None:
                a[ix] = v
        forced[name] = a.tolist()
    return forced
