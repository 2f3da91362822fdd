"""Loads /repo/graphicle for symbolic execution.

The package's own source files are parsed on every run; the syntax tree is
executed as it stands except for these mechanical rewrites, which keep the
meaning of the program on ordinary values:

* calls of the built-ins in ``BUILTINS`` go through ``__vc__.bi`` (so that
  ``float(x)``, ``len(x)``, ... accept symbolic values);
* ``a is b`` goes through ``__vc__.is_`` (numpy's universal functions are
  seen through proxies);
* ``for`` loops in functions go through ``__vc__.loop``: iterables of
  concrete length run natively, those of symbolic length by the loop rule;
* imports of numpy, math, cmath, numba, scipy.optimize and warnings return
  the models below.  Docstrings and annotations are left alone.
"""
from __future__ import annotations

import ast
import builtins
import cmath
import contextlib
import math
import os
import sys
import inspect
import types
import warnings as real_warnings

import numpy as np
import z3

from . import arrays as A
from . import loop as L
from . import ops
from . import sparse as SP
from . import terms as T
from .arrays import SArr
from .terms import (SBool, SComplex, SInt, SReal, SStruct, Unsupported, ctx)

# =================================================================== builtins


def _len(x):
    t = type(x)
    if t is SArr:
        if not x.dims:
            raise TypeError("len() of unsized object")
        return T.mkint(x.ishape[0])
    if t in (L.SymIter, L.SList):
        if t is L.SymIter:
            raise TypeError("object has no len()")
        return T.mkint(x.n)
    if t in (list, tuple, dict, set, str, bytes):
        return builtins.len(x)
    f = getattr(t, "__len__", None)
    if f is None or t.__module__.startswith("vc."):
        return builtins.len(x)
    return f(x)


def _type(*a):
    if len(a) == 1 and type(a[0]).__module__.startswith("vc."):
        return a[0].__class__
    return builtins.type(*a)


def _float(*a):
    if a and (T.is_sym(a[0]) or type(a[0]) is SArr):
        x = a[0]
        if type(x) is SArr:
            x = scalar_of(x)
        if type(x) is SComplex:
            raise TypeError("float() argument must be real")
        r = T.to_real(x)
        return SReal(r.v, r.nan, r.pinf, r.ninf, True)
    return builtins.float(*a)


def scalar_of(x):
    a = x.reshape(-1)
    if A.same_int(a.ishape[0], 1) is not True:
        raise TypeError("only length-1 arrays can be converted")
    return a[0]


def _int(*a):
    if a and (T.is_sym(a[0]) or type(a[0]) is SArr):
        x = a[0]
        if type(x) is SArr:
            x = scalar_of(x)
        if type(x) is SInt:
            return T.mkint(x.e)
        if type(x) is SBool:
            return T.mkint(T.t_ite(x.e, 1, 0))
        if type(x) is SReal:
            return A.real_to_int(x, np.dtype(np.int64)) if True else None
        if not T.is_sym(x):
            return builtins.int(x)
        raise Unsupported("int()")
    return builtins.int(*a)


def _bool(*a):
    if a and type(a[0]) in (SInt, SReal):
        return T.mkbool(T.bool_e(a[0]))
    if a and type(a[0]) is SBool:
        return a[0]
    return builtins.bool(*a)


def _complex(*a):
    if any(T.is_sym(x) for x in a):
        if len(a) == 1:
            return T.to_complex(a[0])
        re, im = (T.to_complex(x) for x in a)
        return T.SComplex(re.re - im.im, re.im + im.re, True)
    return builtins.complex(*a)


def _ext(pick):
    native = builtins.max if pick == ">" else builtins.min

    def f(*a, key=None, **kw):
        xs = a
        if len(a) == 1:
            if type(a[0]) is SArr:
                return (ops.f_max if pick == ">" else ops.f_min)(a[0])
            xs = list(a[0])
        if key is not None or not any(T.is_sym(x) for x in xs):
            if len(a) == 1:
                return native(xs, key=key, **kw)
            return native(*xs, key=key, **kw)
        r = xs[0]
        for x in xs[1:]:
            c = x > r if pick == ">" else x < r
            r = T.ite(c, x, r)
        return r
    return f


def _sum(x, start=0):
    if type(x) is SArr:
        return start + ops.reduce_sum(x, 0)
    if isinstance(x, L.SymIter):
        raise Unsupported("sum over a symbolic iterator")
    return builtins.sum(x, start)


def _round(x, *a):
    if T.is_sym(x):
        raise Unsupported("round")
    return builtins.round(x, *a)


def _seq(kind):
    def f(*a):
        if a:
            s = L.as_symiter(a[0])
            if s is not None:
                return L.materialise(s, kind)
        return kind(*a)
    return f


def _iter(x, *a):
    s = None if a else L.as_symiter(x)
    return s if s is not None else builtins.iter(x, *a)


def _pow(x, y, *a):
    if not a and (T.is_sym(x) or T.is_sym(y)):
        return x ** y
    return builtins.pow(x, y, *a)


BUILTINS = {
    builtins.len: _len, builtins.type: _type, builtins.float: _float,
    builtins.int: _int, builtins.bool: _bool, builtins.complex: _complex,
    builtins.max: _ext(">"), builtins.min: _ext("<"), builtins.sum: _sum,
    builtins.round: _round, builtins.range: L.range_,
    builtins.enumerate: L.enumerate_, builtins.zip: L.zip_,
    builtins.pow: _pow, builtins.list: _seq(list),
    builtins.tuple: _seq(tuple), builtins.map: L.map_, builtins.iter: _iter,
}
BI_NAMES = {f.__name__ for f in BUILTINS}


# ==================================================================== proxies
class UfuncProxy:
    """A numpy universal function accepting lists of symbolic values."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        return self._uf(*[lift(x) for x in a], **k)

    def reduce(self, a, *r, **k):
        return self._uf.reduce(lift(a), *r, **k)

    def __eq__(self, o):
        return self._uf is (o._uf if isinstance(o, UfuncProxy) else o)

    def __hash__(self):
        return hash(self._uf)

    def __getattr__(self, n):
        f = getattr(self._uf, n)
        if not callable(f):
            return f

        def g(*a, **k):
            if any(ops.deep_sym(x) for x in a):
                raise Unsupported(f"ufunc method {n}")
            return f(*a, **k)
        return g


def lift(x):
    if type(x) in (list, tuple) and ops.deep_sym(x):
        return ops.asarray([sub_container(e) for e in x])
    return x


def sub_container(x):
    return ops.asarray(x) if ops.is_container(x) else x


NATIVE_ON_CONTAINERS = {"sum", "any", "all", "prod", "max", "min", "amax",
                        "amin"}
CREATORS = {"empty", "zeros", "ones", "full", "arange", "eye", "identity"}


class NpFunc:
    def __init__(self, name, f):
        self._f, self.__name__ = f, name

    def __call__(self, *a, **k):
        name = self.__name__
        if not any(ops.deep_sym(x) for x in a) and not any(
                ops.deep_sym(x) for x in k.values()):
            if ops.is_container(a[0]) if a else False:
                return self._f(*a, **k)
            if ctx() is not None and name in CREATORS:
                # arrays made by the code may receive symbolic values
                return ops.FUNCS[name](*a, **k)
            r = self._f(*a, **k)
            if ctx() is not None and name in ("array", "empty_like",
                                              "zeros_like", "ones_like",
                                              "full_like", "copy") and \
                    type(r) is np.ndarray and r.dtype.kind in "biufcV":
                try:
                    return A.from_np(r)
                except Unsupported:
                    return r
            return r
        if a and ops.is_container(a[0]) and name in NATIVE_ON_CONTAINERS:
            return self._f(*a, **k)
        f = ops.FUNCS.get(name)
        if f is None:
            raise Unsupported(f"numpy function {name}")
        if not (k.get("where", True) is True):
            raise Unsupported("where=")
        ctx().trust("numpy." + name)
        if name in CREATORS:
            return f(*a, **k)
        return f(*[coerce(x) for x in a], **k)

    def __getattr__(self, n):
        return getattr(self._f, n)


def coerce(x):
    if ops.is_container(x):
        return ops.asarray(x)
    if type(x) in (list, tuple) and any(ops.is_container(e) for e in x):
        return [coerce(e) for e in x]
    return x


class NpModule(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        c = self._cache
        if n in c:
            return c[n]
        o = getattr(self._real, n)
        if self._real.__name__ == "numpy.random":
            if n == "default_rng":
                from . import rng
                return rng.default_rng
            return o
        if isinstance(o, types.ModuleType):
            r = o if n in ("typing", "mixins") else NpModule(o)
        elif isinstance(o, np.ufunc):
            r = UfuncProxy(o)
        elif isinstance(o, type):
            r = o
        elif callable(o):
            r = NpFunc(n, o)
            if n in ("finfo", "iinfo", "dtype", "result_type", "errstate",
                     "seterr", "promote_types", "can_cast", "issubdtype",
                     "vectorize", "frompyfunc"):
                r = o
        else:
            r = o
        c[n] = r
        return r


def either(real, model):
    """The model on symbolic values, the real thing on others."""
    def f(*a, **k):
        if any(is_symbolic(x) for x in a) or any(
                is_symbolic(x) for x in k.values()):
            return model(*a, **k)
        return real(*a, **k)
    f.__name__ = getattr(real, "__name__", "f")
    return f


def is_symbolic(x):
    return ops.deep_sym(x) or type(x) in (SP.Coo, SP.Csr)


class Opaque(types.ModuleType):
    """A foreign module whose functions must not meet symbolic values."""

    def __init__(self, real, over=()):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = dict(over)

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        o = getattr(self._real, n)
        if isinstance(o, types.FunctionType):
            def f(*a, **k):
                if any(ops.deep_sym(x) for x in a) or any(
                        ops.deep_sym(x) for x in k.values()):
                    raise Unsupported(f"{self._real.__name__}.{n}")
                return o(*a, **k)
            return f
        return o


# ------------------------------------------------------------ math and cmath
def py1(f, domain=None):
    def g(x):
        if type(x) is SArr:
            x = scalar_of(x)
        if not T.is_sym(x):
            return None
        x = T.to_real(x)
        x = SReal(x.v, x.nan, x.pinf, x.ninf, True)
        if not ctx().in_njit and domain is not None:
            bad = domain(x)
            if bad is not False and ctx().decide(bad):
                raise ValueError("math domain error")
        r = f(x)
        return SReal(r.v, r.nan, r.pinf, r.ninf, True)
    return g


def lt0(x):
    return T.b_or(x.ninf, T.b_and(x.finite_flag(), T.r_lt(x.v, T.ZERO)))


def le0(x):
    return T.b_or(x.ninf, T.b_and(x.finite_flag(), T.b_not(
        T.r_lt(T.ZERO, x.v))))


def gt1(x):
    return T.b_or(x.pinf, x.ninf, T.r_lt(T.ONE, T.r_abs(x.v)))


def ge1(x):
    return T.b_or(x.pinf, x.ninf, T.b_not(T.r_lt(T.r_abs(x.v), T.ONE)))


def isinf(x):
    return T.b_or(x.pinf, x.ninf)


def _div(a, b):
    return a / b


MATH1 = {
    "sqrt": py1(T.x_sqrt, lt0), "sin": py1(T.x_sin, isinf),
    "cos": py1(T.x_cos, isinf), "exp": py1(T.x_exp),
    "expm1": py1(T.x_expm1), "log": py1(T.x_log, le0),
    "log1p": py1(T.x_log1p, lambda x: le0(T.x_add(x, SReal(T.ONE)))),
    "cosh": py1(T.x_cosh), "sinh": py1(T.x_sinh), "tanh": py1(T.x_tanh),
    "atanh": py1(T.x_atanh, ge1), "asinh": py1(T.x_asinh),
    "acos": py1(T.x_acos, gt1), "fabs": py1(abs),
    "tan": py1(lambda x: T.x_sin(x) / T.x_cos(x)),
}


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b = T.to_real(a), T.to_real(b)
    d = abs(a - b)
    m = _ext(">")(abs(a), abs(b))
    return (d <= _ext(">")(rel_tol * m, abs_tol)) & (
        SBool(T.b_z3(T.b_not(T.b_or(a.pinf, a.ninf, b.pinf, b.ninf))))
        | SBool(T.b_z3(T.x_cmp(a, b, "=="))))


MATHN = {
    "copysign": lambda a, b: pyf(T.x_copysign(T.to_real(a), T.to_real(b))),
    "atan2": lambda a, b: pyf(T.x_atan2(T.to_real(a), T.to_real(b))),
    "hypot": lambda *a: pyf(T.x_sqrt(sum_sq(a))),
    "pow": lambda a, b: a ** b,
    "isclose": _isclose,
    "isnan": lambda a: T.mkbool(T.to_real(a).nan),
    "isinf": lambda a: T.mkbool(isinf(T.to_real(a))),
    "isfinite": lambda a: T.mkbool(T.to_real(a).finite_flag()),
    "fsum": lambda xs: _sum(xs),
    "radians": lambda a: a * (math.pi / 180.0),
    "prod": lambda xs: functools_reduce_mul(xs),
}


def functools_reduce_mul(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def sum_sq(a):
    r = SReal(T.ZERO)
    for x in a:
        x = T.to_real(x)
        r = T.x_add(r, T.x_mul(x, x))
    return r


def pyf(r):
    return SReal(r.v, r.nan, r.pinf, r.ninf, True)


def math_module():
    m = types.ModuleType("math")
    for n in dir(math):
        o = getattr(math, n)
        if not callable(o):
            setattr(m, n, o)
            continue

        def f(*a, _o=o, _n=n, **k):
            if not any(ops.deep_sym(x) for x in a):
                if ctx() is not None and ctx().in_njit and _n == "sqrt" \
                        and a[0] < 0:
                    return math.nan
                return _o(*a, **k)
            ctx().trust("math." + _n)
            if _n in MATH1 and len(a) == 1:
                return MATH1[_n](a[0])
            if _n in MATHN:
                a = [scalar_of(x) if type(x) is SArr else x for x in a]
                return MATHN[_n](*a, **k)
            raise Unsupported(f"math.{_n}")
        f.__name__ = n
        setattr(m, n, f)
    return m


def cmath_module():
    m = types.ModuleType("cmath")

    def phase(z):
        if type(z) is SArr:
            z = scalar_of(z)
        if not T.is_sym(z):
            return cmath.phase(z)
        return pyf(T.x_phase(T.to_complex(z)))

    def rect(r, phi):
        if not (T.is_sym(r) or T.is_sym(phi)):
            return cmath.rect(r, phi)
        r, phi = T.to_real(r), T.to_real(phi)
        bad = T.b_or(isinf(phi))
        if bad is not False and ctx().decide(bad):
            raise ValueError("math domain error")
        return T.SComplex(T.x_mul(r, T.x_cos(phi)),
                          T.x_mul(r, T.x_sin(phi)), True)

    def polar(z):
        if not T.is_sym(z):
            return cmath.polar(z)
        z = T.to_complex(z)
        return pyf(T.x_sqrt(sum_sq((z.re, z.im)))), phase(z)

    def exp(z):
        if not T.is_sym(z):
            return cmath.exp(z)
        return T.x_cexp(T.to_complex(z))
    mine = dict(phase=phase, rect=rect, polar=polar, exp=exp)
    for n in dir(cmath):
        o = getattr(cmath, n)
        if n in mine:
            setattr(m, n, mine[n])
        elif not callable(o):
            setattr(m, n, o)
        else:
            def f(*a, _o=o, _n=n):
                if any(T.is_sym(x) for x in a):
                    raise Unsupported(f"cmath.{_n}")
                return _o(*a)
            setattr(m, n, f)
    return m


# ---------------------------------------------------------------- numba
class Dispatcher:
    """A function compiled by numba, read with Python's semantics except
    for division (an error in numba's default model too) and square roots
    of negative numbers."""

    def __init__(self, f, opts, load):
        self.py_func, self.opts, self.load = f, opts, load
        self.__name__ = f.__name__
        self.__doc__ = f.__doc__
        self.__wrapped__ = f

    def __call__(self, *a, **k):
        c = ctx()
        if c is None:
            return self.py_func(*a, **k)
        for o in ("fastmath", "forceobj"):
            if self.opts.get(o):
                raise Unsupported(f"numba option {o}")
        numpy_model = self.opts.get("error_model") == "numpy"
        a = [njit_arg(x) for x in a]
        if not numpy_model:
            c.in_njit += 1
        saved = c.in_njit
        try:
            if numpy_model:
                c.in_njit = 0
            return self.py_func(*a, **k)
        finally:
            c.in_njit = saved - (0 if numpy_model else 1)


def njit_arg(x):
    if ops.is_container(x):
        raise TypeError("No matching definition for argument type")
    if type(x) is np.ndarray and x.dtype.kind in "biufc":
        return A.from_np(x)
    return x


class Vectorized:
    def __init__(self, f, opts, sig):
        self.py_func, self.__name__ = f, f.__name__
        self.__doc__ = f.__doc__
        self.sig = sig

    def __call__(self, *a, **k):
        if ctx() is None:
            return np.vectorize(self.py_func)(*a)
        if k:
            raise Unsupported("vectorize keyword")
        if any(ops.is_container(x) for x in a):
            raise Unsupported("vectorized call on a container")
        args = [ops.unwrap(x) for x in a]

        def fn(*xs):
            c = ctx()
            xs = [T.to_real(x) for x in xs]
            xs = [SReal(x.v, x.nan, x.pinf, x.ninf, True) for x in xs]
            c.in_njit += 1
            try:
                return L.merged(lambda: self.py_func(*xs))
            finally:
                c.in_njit -= 1
        r = ops.elementwise(fn, args, ops.F8)
        return r if type(r) is SArr else ops.finish(r, ops.F8)


class Threads:
    n = 4


def numba_module(load):
    import numba
    m = Opaque(numba)

    def decorator(make):
        def deco(*a, **k):
            if a and isinstance(a[0], types.FunctionType):
                return make(a[0], k, None)
            sig = a[0] if a else None
            return lambda f: make(f, k, sig)
        return deco
    jit = decorator(lambda f, k, s: Dispatcher(f, k, load))
    over = m.__dict__["_over"]
    over.update(
        njit=jit, jit=jit,
        vectorize=decorator(lambda f, k, s: vec(f, k, s)),
        prange=L.prange_,
        get_num_threads=get_threads,
        set_num_threads=set_threads,
        config=Config(numba.config),
    )
    return m


def vec(f, k, s):
    sigs = [s] if isinstance(s, str) else list(s or ())
    if len(sigs) != 1 or not str(sigs[0]).replace(" ", "").startswith(
            "float64(float64"):
        return UnknownVec(f)
    return Vectorized(f, k, s)


class UnknownVec:
    def __init__(self, f):
        self.py_func = f

    def __call__(self, *a, **k):
        raise Unsupported("vectorize signature")


def max_threads():
    """The size of numba's thread pool: some number."""
    n = z3.Int("numba_threads")
    ctx().assume(n >= 1)
    return SInt(n)


class Config:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        if n == "NUMBA_NUM_THREADS" and ctx() is not None:
            return max_threads()
        return getattr(self._real, n)


def get_threads():
    """The setting on entry is some number the pool allows."""
    if Threads.n is None:
        n, top = z3.Int("threads_set"), A.as_int(max_threads())
        ctx().assume(n >= 1)
        ctx().assume(n <= top)
        Threads.n = SInt(n)
    return Threads.n


def set_threads(n):
    if ctx() is None:
        return
    if not (isinstance(n, (int, np.integer)) or type(n) is SInt):
        raise TypeError("The number of threads specified must be an integer")
    top = max_threads()
    k = A.as_int(n)
    if bool(SBool(T.b_z3(T.b_or(T.i_lt(k, 1), T.i_lt(A.as_int(top), k))))):
        raise ValueError("The number of threads must be between 1 and the "
                         "size of the pool")
    Threads.n = n


# ---------------------------------------------------------------- warnings
class Catch:
    def __init__(self, record=False, **kw):
        self.record = record

    def __enter__(self):
        c = ctx()
        c.filters.append(list(c.filters[-1]))
        self.mark = len(c.warned)
        self.log = [] if self.record else None
        self.outer = getattr(c, "wlog", None)
        if self.record:
            c.wlog = self.log
        return self.log

    def __exit__(self, *a):
        c = ctx()
        c.filters.pop()
        if self.record:
            c.wlog = self.outer
        return False


def warn(message, category=None, stacklevel=1, source=None, **kw):
    c = ctx()
    if isinstance(message, Warning):
        category = type(message)
    category = category or UserWarning
    mode = c.filters[-1][0] if c.filters[-1] else "default"
    if mode == "error":
        raise category(message)
    if mode == "ignore":
        return
    c.warned.append(category)


def set_filter(action, *a, **k):
    cat = k.get("category", Warning)
    if action == "error" or cat is Warning or action == "ignore":
        ctx().filters[-1] = [action]
    else:
        raise Unsupported("warning filter")


def warnings_module():
    m = Opaque(real_warnings)
    m.__dict__["_over"].update(
        warn=warn, catch_warnings=Catch, filterwarnings=set_filter,
        simplefilter=set_filter,
        resetwarnings=lambda: ctx().filters.__setitem__(-1, []))
    return m


# ----------------------------------------------------------- scipy.optimize
MINIMIZE = []


class OptimizeResult(dict):
    __getattr__ = dict.__getitem__


def fingerprint(v):
    """A description of a value that equal descriptions determine."""
    if isinstance(v, tuple):
        return [fingerprint(x) for x in v]
    if type(v) is SArr:
        ix = tuple(z3.Int(f"$f{k}") for k in builtins.range(len(v.dims)))
        cells = v.freeze()(ix) if v.dims else v.get(())
        return ["array", str(v.dtype), [fingerprint(SInt(i) if not
                isinstance(i, int) else i) for i in v.ishape],
                fingerprint(cells)]
    if type(v) is SReal:
        return ["real", v.v, v.nan, v.pinf, v.ninf]
    if type(v) in (SInt, SBool):
        return [type(v).__name__, v.e]
    if type(v) is SStruct:
        return [fingerprint(x) for x in v.vals]
    return v


def same_print(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and builtins.all(
            same_print(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        from . import norm
        return a.eq(b) or norm.canon(a).eq(norm.canon(b))
    if isinstance(a, (list, z3.ExprRef)) or isinstance(b, (list,
                                                           z3.ExprRef)):
        return False
    return a is b or (type(a) is type(b) and isinstance(
        a, (int, float, str, bool)) and a == b)


def minimize(fun, x0, args=(), method=None, jac=None, **kw):
    """The model of scipy.optimize.minimize: it returns some point and the
    value of the objective there."""
    from . import arrays
    x0 = ops.asarray(x0)
    n = builtins.len(x0) if not T.is_sym(x0) else None
    args = args if isinstance(args, tuple) else (args,)
    memo = ctx().__dict__.setdefault("_minimize", [])
    try:
        key = fingerprint((fun, x0, args, method, jac, tuple(
            sorted(kw.items()))))
    except Unsupported:
        key = None
    for k, r in memo:
        if key is not None and same_print(k, key):
            xs = r
            break
    else:
        xs = [T.SReal(T.fresh_real("xmin")) for _ in builtins.range(n)]
        memo.append((key, xs))
    x = ops.asarray(xs)
    ctx().trust("scipy.optimize.minimize is deterministic: equal arguments, "
                "equal point")
    ctx().trust("scipy.optimize.minimize returns a point and the value of "
                "the objective at that point")
    v = fun(x, *args)
    if jac is True:
        v = v[0]
    if type(v) is SArr:
        v = scalar_of(v)
    r = OptimizeResult(x=x, fun=v, success=True, status=0, nit=1, nfev=1)
    MINIMIZE.append(((fun, x0), dict(args=args, method=method, jac=jac,
                                     **kw), r))
    return r


# ==================================================================== loader
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0
        self.stack = []
        self.n = 0

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.depth += 1
        gen = self.gen if hasattr(self, "gen") else False
        self.gen = has_yield(node)
        last = node.body[-1]
        if self.gen and isinstance(last, ast.Expr) and isinstance(
                last.value, ast.YieldFrom) and count_yields(node) == 1:
            # a generator that only ends in "yield from"
            node.body[-1] = ast.Return(ast.Call(vc("gen"), [
                last.value.value], []))
            self.gen = False
        # decorators, defaults and annotations are evaluated outside
        node.body = flat([self.visit(s) for s in node.body])
        self.gen = gen
        self.depth -= 1
        if ast.get_docstring(node, clean=False) is not None:
            at = 1
        else:
            at = 0
        call = ast.parse("__vc__.enter(%r)" % (
            self.mod + "." + ".".join(self.stack))).body[0]
        node.body.insert(at, call)
        self.stack.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        d = self.depth
        self.depth = 0
        self.generic_visit(node)
        self.depth = d
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in BI_NAMES:
            node.func = ast.Call(vc("bi"), [f], [])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is,
                                                           ast.IsNot)):
            r = node.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None:
                return node
            c = ast.Call(vc("is_"), [node.left, r], [])
            if isinstance(node.ops[0], ast.IsNot):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if self.depth == 0 or self.gen:
            return node
        names = sorted(assigned(node))
        if any(n.startswith("__vc") for n in names):
            pass
        self.n += 1
        lp = f"__vcl{self.n}"
        native = ast.For(node.target, ast.Attribute(
            ast.Name(lp, ast.Load()), "it", ast.Load()),
            clone(node.body), clone(node.orelse), None)
        tup = ast.Tuple([ast.Name(n, ast.Store()) for n in names],
                        ast.Store())
        body = Stops(lp).run(clone(node.body))
        src = (f"if {lp}.symbolic:\n"
               f" {lp}.begin(dict(locals()))\n"
               f" while {lp}.more():\n"
               f"  try:\n"
               f"   __T__ = {lp}.havoc()\n"
               f"   __X__ = {lp}.item()\n"
               f"   for __vco in (0,):\n"
               f"    pass\n"
               f"   {lp}.record(dict(locals()))\n"
               f"  except BaseException as __vce:\n"
               f"   {lp}.failed(__vce)\n"
               f" __T__ = {lp}.finish()\n"
               f"else:\n pass\n")
        tree = ast.parse(src).body[0]
        wl = tree.body[1]
        tr = wl.body[0]
        tr.body[0].targets = [tup]
        tr.body[1].targets = [node.target]
        tr.body[2].body = body
        tree.body[2].targets = [clone(tup)]
        tree.orelse = [native]
        if node.orelse:
            alt = ast.parse(f"if not {lp}.broken:\n pass").body[0]
            alt.body = clone(node.orelse)
            tree.body.append(alt)
        get = ast.Assign([ast.Name(lp, ast.Store())], ast.Call(
            vc("loop"), [node.iter, ast.Tuple(
                [ast.Constant(n) for n in names], ast.Load())], []))
        return [get, tree]


def clone(x):
    import copy
    return copy.deepcopy(x)


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += x
        elif x is not None:
            out.append(x)
    return out


def vc(name):
    return ast.Attribute(ast.Name("__vc__", ast.Load()), name, ast.Load())


class Stops(ast.NodeTransformer):
    """return / break leaving the rewritten loop become loop.stop."""

    def __init__(self, lp):
        self.lp = lp
        self.inner = 0

    def run(self, body):
        return flat([self.visit(s) for s in body])

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):
        self.inner += 1
        self.generic_visit(n)
        self.inner -= 1
        return n
    visit_While = visit_For

    def stop(self, what):
        return ast.parse(f"{self.lp}.stop({what!r}, dict(locals()))").body[0]

    def visit_Return(self, n):
        return self.stop("return")

    def visit_Break(self, n):
        return n if self.inner else self.stop("break")

    def visit_Assign(self, n):
        return n


def has_yield(node):
    return count_yields(node) > 0


def count_yields(node):
    st = list(node.body)
    n = 0
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            n += 1
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return n


def assigned(node):
    """Local names bound in the loop."""
    out = set()
    st = [node.target] + list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and \
                x.id not in ("__vco", "__vce"):
            out.add(x.id)
        st.extend(ast.iter_child_nodes(x))
    return {n for n in out if not n.startswith("__vcl")}


class Runtime:
    def __init__(self):
        self.seen = set()

    @staticmethod
    def bi(f):
        try:
            return BUILTINS.get(f, f)
        except TypeError:
            return f

    @staticmethod
    def is_(a, b):
        if isinstance(a, UfuncProxy):
            a = a._uf
        if isinstance(b, UfuncProxy):
            b = b._uf
        if isinstance(a, NpFunc) or isinstance(b, NpFunc):
            return getattr(a, "_f", a) is getattr(b, "_f", b)
        return a is b

    @staticmethod
    def loop(it, names):
        return L.loop(it, names)

    @staticmethod
    def gen(x):
        return L.gen(x)

    def enter(self, name):
        c = ctx()
        if c is not None:
            c.callee.add(name)


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGES = ("graphicle", "contracts")


class Loader:
    def __init__(self, repo):
        self.roots = dict(
            graphicle=os.path.join(os.path.realpath(repo), "graphicle"),
            contracts=os.path.join(VERIF, "contracts"))
        self.contracts = {}
        self.summaries = {}
        self.mods = {}
        self.rt = Runtime()
        self.native = {}

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "graphicle"
            for _ in builtins.range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        if full == "vc.contract":
            from . import contract as vcc
            m = types.ModuleType(full)

            def contract(prop, name=None, fns=(), **kw):
                def deco(f):
                    p0 = prop if builtins.isinstance(prop, str) else prop[0]
                    self.contracts[f"{p0}.{name or f.__name__}"] = f
                    return f
                return deco
            def summary(path, *a, **k):
                def deco(f):
                    self.summaries[path] = f
                    return f
                return deco
            m.contract = contract
            m.summary = summary
            return m
        top = full.partition(".")[0]
        if top in PACKAGES:
            m = self.module(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        self.module(full + "." + f)
                return m
            return self.module(top) if not level else m
        real = builtins.__import__(name, globals, locals, fromlist, level)
        return self.foreign(real)

    def foreign(self, m):
        n = m.__name__
        if n in self.native:
            return self.native[n]
        if n == "numpy" or n.startswith("numpy."):
            r = m if n == "numpy.typing" else NpModule(m)
        elif n == "math":
            r = math_module()
        elif n == "cmath":
            r = cmath_module()
        elif n == "numba":
            r = numba_module(self)
        elif n == "warnings":
            r = warnings_module()
        elif n == "scipy":
            import scipy.optimize
            r = Opaque(m, dict(optimize=self.foreign(scipy.optimize)))
        elif n == "scipy.optimize":
            r = Opaque(m, dict(
                minimize=minimize,
                linear_sum_assignment=either(
                    m.linear_sum_assignment, SP.linear_sum_assignment)))
        elif n == "scipy.sparse":
            r = Opaque(m, dict(coo_array=either(m.coo_array, SP.coo_array),
                               csr_array=either(m.csr_array, SP.csr_array)))
        elif n == "scipy.sparse.csgraph":
            r = Opaque(m, dict(breadth_first_tree=either(
                m.breadth_first_tree, SP.breadth_first_tree)))
        elif n == "itertools":
            r = Opaque(m, dict(starmap=L.starmap_))
        elif n in ("pandas", "awkward"):
            r = Opaque(m)
        elif n.startswith("scipy."):
            r = Opaque(m)
        else:
            return m
        self.native[n] = r
        return r

    def module(self, full):
        if full in self.mods:
            return self.mods[full]
        top, _, rest = full.partition(".")
        root = self.roots[top]
        path = os.path.join(root, *rest.split(".")) + ".py" if rest else \
            os.path.join(root, "__init__.py")
        if not os.path.exists(path):
            raise ImportError(full)
        m = types.ModuleType(full)
        self.mods[full] = m
        m.__file__ = path
        m.__package__ = top
        if not rest:
            m.__path__ = [root]
        with open(path) as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        tree = Rewriter(full).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", dont_inherit=True)
        b = dict(vars(builtins))
        b["__import__"] = self.import_
        b["len"] = _len
        m.__dict__["__builtins__"] = b
        m.__dict__["__vc__"] = self.rt
        # attrs and typing look modules up in sys.modules
        saved = sys.modules.get(full)
        sys.modules[full] = m
        try:
            exec(code, m.__dict__)
        finally:
            if saved is not None:
                sys.modules[full] = saved
            else:
                sys.modules.pop(full, None)
        if rest:
            setattr(self.module(top), full.rpartition(".")[2], m)
        return m


def load(repo):
    """The package, re-read from its sources."""
    H = T.H.ctx
    T.H.ctx = None
    try:
        ld = Loader(repo)
        ld.g = ld.module("graphicle")
        return ld
    finally:
        T.H.ctx = H


def find(root, path):
    """(owner, attribute, function) of a dotted path, or None."""
    o = root
    parts = path.split(".")
    for x in parts[:-1]:
        o = getattr(o, x, None)
        if o is None:
            return None
    f = getattr(o, parts[-1], None)
    return None if f is None else (o, parts[-1], f)


def nparams(f):
    f = getattr(f, "py_func", f)
    f = getattr(f, "__wrapped__", f)
    try:
        return len(inspect.signature(f).parameters)
    except (TypeError, ValueError):
        return None


def apply_summary(ld, s, get_cx):
    """Replace the function by the result its contract states."""
    hit = find(ld.g, s.path.partition(".")[2])
    if hit is None or nparams(hit[2]) != s.nparams:
        return False
    ld.module("contracts.summaries")
    res = ld.summaries[s.path]

    real = getattr(hit[2], "py_func", hit[2])
    sig = inspect.signature(getattr(real, "__wrapped__", real))

    def call(*args, **kw):
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        if b.kwargs or len(b.args) != s.nparams:
            raise Unsupported("call of a summarised function")
        return res(get_cx(), *b.args)
    setattr(hit[0], hit[1], call)
    return True


def load_contract(ld, c):
    """The contract's body, passed through the same rewriting."""
    H = T.H.ctx
    T.H.ctx = None
    try:
        ld.module(c.body.__module__)
    finally:
        T.H.ctx = H
    return ld.contracts[c.key]
