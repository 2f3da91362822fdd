"""numpy's functions on symbolic arrays (the trusted semantics of numpy)."""
from __future__ import annotations

import builtins
import itertools

import numpy as np
import z3

from . import arrays as A
from . import binders as Bd
from . import index as X
from . import terms as T
from .arrays import SArr, as_int
from .terms import (SBool, SComplex, SInt, SReal, SStruct, Unsupported, b_and,
                    b_ite, b_not, b_or, ctx, i_add, i_eq, i_le, i_lt, i_mul,
                    i_sub)

F8, I8, B1 = A.F8, A.I8, A.B1
C16 = np.dtype(np.complex128)


# ------------------------------------------------------------------ coercion
def is_container(x):
    return not isinstance(x, (np.ndarray, np.generic, type)) and \
        not T.is_sym(x) and type(x) not in (SArr, SStruct) and \
        hasattr(type(x), "__array__")


def asarray(x, dtype=None):
    if type(x).__name__ == "SList":
        a = from_slist(x, dtype)
    else:
        a = _asarray(x)
    if dtype is not None:
        dt = np.dtype(dtype)
        if dt != a.dtype:
            a = a.astype(dt)
    return a


def _asarray(x):
    if type(x) is SArr:
        return x
    if T.is_sym(x) or type(x) is SStruct:
        return A.build((), dtype_of(x), lambda ix: x)
    if is_container(x):
        return _asarray(x.__array__())
    if type(x).__name__ == "SList":
        return from_slist(x)
    if isinstance(x, np.ndarray):
        return A.from_np(x)
    if isinstance(x, (bool, int, float, complex, np.generic)):
        return A.from_np(np.asarray(x))
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        xs = list(x)
        if not any(deep_sym(e) for e in xs):
            return A.from_np(np.asarray(xs))
        subs = [_asarray(e) for e in xs]
        sh = subs[0].ishape
        for s in subs[1:]:
            if len(s.ishape) != len(sh) or any(
                    A.same_int(p, q) is not True
                    for p, q in zip(s.ishape, sh)):
                raise ValueError("setting an array element with a sequence. "
                                 "The requested array has an inhomogeneous "
                                 "shape")
        dt = np.result_type(*[s.dtype for s in subs])
        fs = [s.freeze() for s in subs]

        def f(ix):
            i = ix[0]
            if isinstance(i, int):
                return fs[i](tuple(ix[1:]))
            r = fs[-1](tuple(ix[1:]))
            for j in range(len(fs) - 2, -1, -1):
                r = T.ite(i_eq(i, j), fs[j](tuple(ix[1:])), r)
            return r
        return A.build((len(subs),) + tuple(sh), dt, f)
    raise Unsupported(f"asarray of {type(x)}")


def from_slist(s, dtype=None):
    """An array of the items of a symbolic sequence."""
    c = ctx()
    k = Bd.index_var("a")
    from . import loop

    def shape_of(j):
        v = s.item(j)
        if isinstance(v, tuple) and dtype is not None and \
                np.dtype(dtype).names:
            return SStruct(np.dtype(dtype).names, v, np.dtype(dtype))
        return v
    mk = c.mark()
    c.assume(z3.And(k >= 0, k < Bd.T_int(s.n)))
    v = shape_of(k)
    c.reset(mk)
    if type(v) is SStruct:
        return A.build((s.n,), v.dtype, shape_of)
    if isinstance(v, (list, tuple)):
        sub = _asarray(v)
        m = [i for i in sub.ishape]
        if not all(isinstance(i, int) for i in m) or len(m) != 1:
            raise Unsupported("array of a nested symbolic sequence")

        def cell(ix):
            row = s.item(ix[0])
            if isinstance(ix[1], int):
                return row[ix[1]]
            return _asarray(row).freeze()((ix[1],))
        return A.build((s.n, m[0]), sub.dtype, cell)
    if not T.is_num(v):
        raise Unsupported("array of a symbolic sequence of objects")
    dt = np.result_type(dtype_of(v)) if not isinstance(
        dtype_of(v), type) else np.dtype(dtype_of(v))
    return A.build((s.n,), dt, lambda ix: s.item(ix[0]))


def deep_sym(x, depth=0):
    if type(x).__name__ == "SList":
        return True
    if type(x) in (SArr, SInt, SReal, SBool, SComplex, SStruct):
        return True
    if isinstance(x, (str, bytes, np.ndarray, np.generic, int, float,
                      complex, type(None), type)):
        return False
    if is_container(x):
        return holds_sym(x)
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(deep_sym(e, depth + 1) for e in x)
    if depth < 4 and isinstance(x, dict):
        return any(deep_sym(e, depth + 1) for e in x.values())
    return False


def holds_sym(x):
    for a in ("_data", "_mask_arrays"):
        v = getattr(x, a, None)
        if v is not None:
            if type(v) is SArr:
                return True
            if hasattr(v, "values"):
                return any(deep_sym(e) for e in v.values())
            return False
    return False


def dtype_of(x):
    """numpy dtype of a value; weak Python scalars give their type."""
    t = type(x)
    if t is SArr:
        return x.dtype
    if t is SReal:
        return float if x.py else F8
    if t is SInt:
        return int if x._dt is None else np.dtype(x._dt)
    if t is SBool:
        return B1
    if t is SComplex:
        return complex if x.py else C16
    if t is SStruct:
        return x.dtype
    if isinstance(x, (np.ndarray, np.generic)):
        return x.dtype
    if isinstance(x, bool):
        return B1
    if isinstance(x, int):
        return int
    if isinstance(x, float):
        return float
    if isinstance(x, complex):
        return complex
    raise Unsupported(f"dtype of {type(x)}")


def strong(dt):
    return np.dtype(dt)


def broadcast_shapes(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for j in range(nd):
        cur = 1
        for s in shapes:
            k = len(s) - nd + j
            if k < 0:
                continue
            d = s[k]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
                continue
            q = A.same_int(cur, d)
            if q is True:
                if isinstance(d, int):
                    cur = d
                continue
            if q is None and ctx().decide(i_eq(cur, d)):
                continue
            if not isinstance(cur, int) and ctx().decide(i_eq(cur, 1)):
                cur = d
                continue
            if not isinstance(d, int) and ctx().decide(i_eq(d, 1)):
                continue
            raise ValueError("operands could not be broadcast together with "
                             f"shapes {shapes}")
        out.append(cur)
    return tuple(out)


def reader(a, shape, strict=False):
    """Read ``a`` at indices of the broadcast ``shape``."""
    f = a.freeze()
    vs = a.ishape
    off = len(shape) - len(vs)
    mode = []
    for j, n in enumerate(vs):
        m = shape[off + j]
        if isinstance(n, int) and n == 1:
            mode.append(0)
        elif A.same_int(n, m) is True:
            mode.append(1)
        elif A.same_int(n, 1) is True:
            mode.append(0)
        elif ctx().decide(i_eq(n, m)):
            mode.append(1)
        elif ctx().decide(i_eq(n, 1)):
            mode.append(0)
        else:
            raise ValueError("could not broadcast input array from shape "
                             f"{vs} into shape {shape}")
    if all(mode) and off == 0:
        return f
    return lambda ix: f(tuple(ix[off + j] if mode[j] else 0
                              for j in range(len(vs))))


def elementwise(fn, args, dt, keep=False):
    """fn over broadcast array / scalar arguments."""
    arrs = [a for a in args if type(a) is SArr]
    if not arrs:
        r = fn(*args)
        return r
    shape = broadcast_shapes([a.ishape for a in arrs])
    rd = [reader(a, shape) if type(a) is SArr else (lambda ix, v=a: v)
          for a in args]
    if not shape and not keep:
        return finish(fn(*[r(()) for r in rd]), dt)
    return A.build(shape, dt, lambda ix: fn(*[r(ix) for r in rd]))


def finish(v, dt):
    """A numpy scalar of dtype dt."""
    dt = np.dtype(dt)
    if dt.kind == "c":
        return T.to_complex(v)
    if dt.kind in "fiub":
        return A.cast(v, dt)
    return v


def cast_scalar(v, dt):
    if dt.kind == "c":
        return T.to_complex(v)
    return A.cast(v, dt)


# -------------------------------------------------------------- ufuncs
def num2(f):
    return lambda a, b: f(num(a), num(b))


def num(a):
    if isinstance(a, (np.generic,)):
        return A.T_scalar(a)
    if type(a) in (bool,):
        return a
    return a


def cx_or(fr, fc):
    def f(a):
        if type(a) is SComplex or isinstance(a, complex):
            return fc(T.to_complex(a))
        return fr(a)
    return f


def _bit(op):
    def f(a, b):
        if T.is_intlike(a) and T.is_intlike(b) and (
                type(a) in (SBool, bool, np.bool_)) and (
                type(b) in (SBool, bool, np.bool_)):
            x, y = T.bool_e(a), T.bool_e(b)
            if op == "and":
                return T.mkbool(b_and(x, y))
            if op == "or":
                return T.mkbool(b_or(x, y))
            return T.mkbool(b_not(T.bool_iff(x, y)))
        raise Unsupported("bitwise operation on integers")
    return f


def _logical(op):
    def f(a, b):
        x, y = T.bool_e(a), T.bool_e(b)
        if op == "and":
            return T.mkbool(b_and(x, y))
        if op == "or":
            return T.mkbool(b_or(x, y))
        return T.mkbool(b_not(T.bool_iff(x, y)))
    return f


def _cmp(op):
    def f(a, b):
        if type(a) is SStruct or type(b) is SStruct:
            va = a.vals if type(a) is SStruct else list(a)
            vb = b.vals if type(b) is SStruct else list(b)
            e = b_and(*[T.bool_e(x == y) for x, y in zip(va, vb)])
            return T.mkbool(e if op == "==" else b_not(e))
        a, b = num(a), num(b)
        if type(a) in (SBool, bool) and type(b) in (SBool, bool) and \
                op in ("==", "!="):
            e = T.bool_iff(T.bool_e(a), T.bool_e(b))
            return T.mkbool(e if op == "==" else b_not(e))
        return {"==": lambda: a == b, "!=": lambda: a != b,
                "<": lambda: a < b, "<=": lambda: a <= b,
                ">": lambda: a > b, ">=": lambda: a >= b}[op]()
    return f


def _add(a, b):
    if type(a) in (SBool, bool) and type(b) in (SBool, bool):
        return T.mkbool(b_or(T.bool_e(a), T.bool_e(b)))
    return a + b


def _mul(a, b):
    if type(a) in (SBool, bool) and type(b) in (SBool, bool):
        return T.mkbool(b_and(T.bool_e(a), T.bool_e(b)))
    return a * b


def _div(a, b):
    if type(a) is SComplex or type(b) is SComplex:
        return a / b
    return T.x_div(T.to_real(a), T.to_real(b), False)


def _pow(a, b):
    if T.is_intlike(a) and type(b) is int and b >= 0:
        r = T.mkint(1)
        for _ in range(b):
            r = r * a
        return r
    if type(a) is SComplex:
        return a ** b
    return T.x_pow(T.to_real(a), b)


def _maximum(a, b):
    if T.is_intlike(a) and T.is_intlike(b):
        return T.x_max(a, b)
    a, b = T.to_real(a), T.to_real(b)
    r = T.ite(T.bool_e(a >= b), a, b)
    return T.ite(b_or(a.nan, b.nan), SReal(T.ZERO, nan=True), r)


def _minimum(a, b):
    if T.is_intlike(a) and T.is_intlike(b):
        return T.x_min(a, b)
    a, b = T.to_real(a), T.to_real(b)
    r = T.ite(T.bool_e(a <= b), a, b)
    return T.ite(b_or(a.nan, b.nan), SReal(T.ZERO, nan=True), r)


def _inv(a):
    if type(a) in (SBool, bool, np.bool_):
        return T.mkbool(b_not(T.bool_e(a)))
    raise Unsupported("bitwise invert of integers")


def _conj(a):
    return a.conjugate() if type(a) is SComplex else a


def _floor(a, b):
    if T.is_intlike(a) and T.is_intlike(b):
        return T.mkint(T.int_e(a)) // b if not isinstance(a, int) else a // b
    raise Unsupported("float floor division")


def _mod(a, b):
    if T.is_intlike(a) and T.is_intlike(b):
        return T.mkint(T.int_e(a)) % b if not isinstance(a, int) else a % b
    raise Unsupported("float remainder")


def _tan(a):
    return T.x_sin(a) / T.x_cos(a)


def _floorr(a):
    a = T.to_real(a)
    if a.special():
        raise Unsupported("floor of special")
    return SReal(z3.ToReal(z3.ToInt(a.v)))


def _neg(a):
    if type(a) in (SBool, bool):
        raise TypeError("The numpy boolean negative, the `-` operator, is "
                        "not supported")
    return -a


R1 = lambda f: (lambda a: f(T.to_real(a)))
TABLE = {
    "add": _add, "subtract": lambda a, b: a - b, "multiply": _mul,
    "divide": _div, "true_divide": _div, "power": _pow,
    "float_power": _pow, "floor_divide": _floor, "remainder": _mod,
    "negative": _neg, "positive": lambda a: a,
    "absolute": abs, "fabs": lambda a: abs(T.to_real(a)),
    "square": lambda a: a * a, "sqrt": R1(T.x_sqrt),
    "exp": cx_or(lambda a: T.x_exp(a), T.x_cexp), "exp2": None,
    "expm1": R1(T.x_expm1), "log": R1(T.x_log), "log1p": R1(T.x_log1p),
    "sin": R1(T.x_sin), "cos": R1(T.x_cos), "tan": R1(_tan),
    "sinh": R1(T.x_sinh), "cosh": R1(T.x_cosh), "tanh": R1(T.x_tanh),
    "arctanh": R1(T.x_atanh), "arcsinh": R1(T.x_asinh),
    "arccos": R1(T.x_acos), "arctan2": lambda a, b: T.x_atan2(a, b),
    "hypot": lambda a, b: T.x_hypot(a, b),
    "maximum": _maximum, "minimum": _minimum, "fmax": T.x_max,
    "fmin": T.x_min, "sign": lambda a: T.x_sign(a),
    "copysign": lambda a, b: T.x_copysign(a, b),
    "isnan": lambda a: T.x_isnan(a), "isinf": lambda a: T.x_isinf(a),
    "isfinite": lambda a: T.x_isfinite(a),
    "equal": _cmp("=="), "not_equal": _cmp("!="), "less": _cmp("<"),
    "less_equal": _cmp("<="), "greater": _cmp(">"),
    "greater_equal": _cmp(">="),
    "logical_and": _logical("and"), "logical_or": _logical("or"),
    "logical_xor": _logical("xor"),
    "logical_not": lambda a: T.mkbool(b_not(T.bool_e(a))),
    "bitwise_and": _bit("and"), "bitwise_or": _bit("or"),
    "bitwise_xor": _bit("xor"), "invert": _inv,
    "conjugate": _conj, "reciprocal": lambda a: 1.0 / T.to_real(a),
    "floor": _floorr,
    "degrees": lambda a: T.to_real(a) * 180.0 / T.SReal(T.PI),
    "radians": lambda a: T.to_real(a) * T.SReal(T.PI) / 180.0,
    "deg2rad": lambda a: T.to_real(a) * T.SReal(T.PI) / 180.0,
}
INVALID = {"sqrt", "log", "arctanh", "arccos", "divide", "true_divide",
           "subtract", "add", "multiply", "power", "log1p"}


def res_dtype(uf, args, kwargs):
    if kwargs.get("dtype") is not None:
        return np.dtype(kwargs["dtype"])
    if uf.__name__ in ("equal", "not_equal", "less", "less_equal", "greater",
                       "greater_equal", "logical_and", "logical_or",
                       "logical_not", "logical_xor", "isnan", "isinf",
                       "isfinite"):
        return B1
    dts = [dtype_of(a) for a in args]
    if all(d in (int, float, complex) for d in dts):
        dts = [np.dtype(d) for d in dts]
    r = uf.resolve_dtypes(tuple(dts) + (None,) * uf.nout)
    return r[uf.nin]


def unwrap(x):
    if isinstance(x, np.ndarray) and type(x) is not SArr:
        return A.from_np(x) if x.ndim else A.T_scalar(x[()])
    if isinstance(x, np.generic):
        return num(x)
    if isinstance(x, (list, tuple)):
        return asarray(x)
    if is_container(x):
        return asarray(x)
    return x


def array_ufunc(uf, method, inputs, kwargs):
    for x in inputs + tuple(kwargs.get("out") or ()):
        if is_container(x):
            return NotImplemented
    if kwargs.get("where", True) is not True:
        raise Unsupported("ufunc where=")
    name = uf.__name__
    if method == "reduce":
        kw = {k: v for k, v in kwargs.items() if v is not None and
              v is not np._NoValue}
        return reduce_uf(name, inputs[0], **kw)
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    out = kwargs.get("out")
    args = [unwrap(x) for x in inputs]
    if name == "matmul":
        r = matmul(*args)
    else:
        fn = TABLE.get(name)
        if fn is None:
            if getattr(uf, "_vc_scalar", None) is None:
                raise Unsupported(f"ufunc {name}")
            fn = uf._vc_scalar
        if any(type(a) is SArr and a.dtype.names for a in args) and \
                name not in ("equal", "not_equal"):
            raise np._core._exceptions._UFuncNoLoopError(
                uf, tuple(np.dtype(dtype_of(a)) for a in args) + (None,))
        dt = res_dtype(uf, args, kwargs) if not any(
            dtype_of(a) is not int and dtype_of(a) is not float and
            dtype_of(a) is not complex and np.dtype(dtype_of(a)).names
            for a in args) else B1
        if kwargs.get("dtype") is not None and dt.kind in "fiu":
            args = [a.astype(dt) if type(a) is SArr and a.dtype != dt
                    else a for a in args]
        if ctx().filters[-1][:1] == ["error"] and name in INVALID:
            raising_invalid(fn, args, dt)
        r = elementwise(fn, args, dt)
        if type(r) is not SArr:
            r = finish(r, dt)
    if out is not None:
        o = out[0]
        if type(o) is not SArr:
            raise Unsupported("out= of a foreign array")
        X.store(o, r)
        return o
    return r


def raising_invalid(fn, args, dt):
    """warnings.filterwarnings("error") turns a floating-point warning of
    the operation into a RuntimeWarning exception."""
    if dt.kind != "f":
        return

    def bad(*xs):
        rs = [T.to_real(x) for x in xs]
        v = T.to_real(fn(*xs))
        nan_in = b_or(*[r.nan for r in rs])
        inf_in = b_or(*[b_or(r.pinf, r.ninf) for r in rs])
        return b_or(b_and(v.nan, b_not(nan_in)),
                    b_and(b_or(v.pinf, v.ninf), b_not(inf_in)))
    arrs = [a for a in args if type(a) is SArr]
    if not arrs:
        c = bad(*args)
    else:
        m = elementwise(lambda *xs: T.mkbool(bad(*xs)), args, B1, keep=True)
        c = T.bool_e(reduce_any(m, None))
    if c is not False and ctx().decide(c):
        raise RuntimeWarning("invalid value encountered")


# ------------------------------------------------------------ reductions
def reduce_uf(name, a, axis=0, dtype=None, out=None, keepdims=False,
              initial=None, where=True):
    a = asarray(a)
    if where is not True:
        raise Unsupported("reduce where=")
    if name == "add":
        r = reduce_sum(a, axis, dtype, keepdims)
    elif name in ("logical_and", "bitwise_and"):
        if name == "bitwise_and" and a.dtype != B1:
            raise Unsupported("bitwise reduce")
        r = reduce_all(a, axis, keepdims)
    elif name in ("logical_or", "bitwise_or"):
        if name == "bitwise_or" and a.dtype != B1:
            raise Unsupported("bitwise reduce")
        r = reduce_any(a, axis, keepdims)
    elif name in ("maximum", "minimum"):
        r = reduce_ext(a, axis, name == "maximum", keepdims, initial)
    elif name == "bitwise_xor" and a.dtype == B1:
        r = fold_axis(a, axis, lambda n, f: xor_fold(n, f), B1, keepdims)
    elif name == "multiply":
        r = fold_axis(a, axis, prod_fold, a.dtype, keepdims)
    else:
        raise Unsupported(f"{name}.reduce")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        X.store(o, r)
        return o
    return r


def xor_fold(n, f):
    if not isinstance(n, int):
        raise Unsupported("xor over a symbolic axis")
    r = False
    for k in range(n):
        r = b_not(T.bool_iff(r, T.bool_e(f(k))))
    return T.mkbool(r)


def prod_fold(n, f):
    if not isinstance(n, int):
        raise Unsupported("product over a symbolic axis")
    r = T.mkint(1)
    for k in range(n):
        r = r * f(k)
    return r


def fold_axis(a, axis, fold, dt, keepdims=False):
    """fold(n, reader) along axis (None: all axes)."""
    shape = a.ishape
    nd = len(shape)
    if axis is None:
        if nd == 0:
            return finish(fold(1, lambda k, f=a.freeze(): f(())), dt)
        if nd == 1:
            axis = (0,)
        else:
            axis = tuple(range(nd))
    if not isinstance(axis, tuple):
        axis = (axis,)
    axis = tuple(as_int(x) for x in axis)
    for x in axis:
        if not -nd <= x < nd:
            raise np.exceptions.AxisError(x, nd)
    axis = tuple(sorted(x % nd for x in axis))
    f = a.freeze()
    keep = [j for j in range(nd) if j not in axis]

    def at(ix):
        full = [None] * nd
        for j, i in zip(keep, ix):
            full[j] = i

        def go(axes):
            if len(axes) == 1:
                def g(k, axes=axes):
                    q = list(full)
                    q[axes[0]] = k
                    return f(tuple(q))
                return fold(shape[axes[0]], g)

            def h(k):
                full[axes[0]] = k
                return go(axes[1:])
            return fold(shape[axes[0]], h)
        return go(list(axis))
    out = tuple(shape[j] for j in keep)
    if not out and not keepdims:
        return finish(at(()), dt)
    r = A.build(out, dt, at)
    if keepdims:
        dims, it_ = [], iter(r.dims)
        for j in range(nd):
            dims.append([] if j in axis else next(it_))
        r = SArr(r.buf, dims, r.fixed, r.rec)
    return r


def sum_fold(n, f):
    """Sum of extended reals / complex / ints over k < n."""
    if isinstance(n, int) and n <= 64:
        r = None
        for k in range(n):
            v = f(k)
            if type(v) in (SBool, bool):
                v = T.mkint(T.int_e(v))
            r = v if r is None else r + v
        return r if r is not None else SReal(T.ZERO)
    k = Bd.range_var("s", n)
    v = f(k)
    return sum_value(n, k, v)


def sum_value(n, k, v):
    t = type(v)
    if t is SComplex:
        return SComplex(sum_value(n, k, v.re), sum_value(n, k, v.im))
    if t is SBool or isinstance(v, (bool, np.bool_)):
        e = T.bool_e(v)
        return T.mkint(Bd.count_term(n, lambda j: sub1(e, k, j)))
    if t is SInt or isinstance(v, (int, np.integer)):
        e = z3.ToReal(Bd.T_int(T.int_e(v)))
        s = Bd.sum_over(n, k, e)
        return SInt(z3.ToInt(s))
    v = T.to_real(v)
    s = Bd.sum_over(n, k, v.v)
    if not v.special():
        return SReal(s)
    ex = lambda fl: Bd.any_term(n, lambda j: sub1(fl, k, j)) \
        if possible(n, k, fl) else False
    nan, pi, ni = ex(v.nan), ex(v.pinf), ex(v.ninf)
    nan = b_or(nan, b_and(pi, ni))
    return SReal(s, nan, b_and(pi, b_not(nan)), b_and(ni, b_not(nan)))


def possible(n, k, fl):
    """Can the flag of the summand hold under the preconditions which are
    stated for every index?"""
    c = T.ctx()
    if isinstance(fl, bool) or c is None or not c.facts:
        return fl is not False
    from . import solve
    return solve.feasible_full(
        list(c.assumptions) + [k >= 0, k < Bd.T_int(n)], fl)


def sub1(e, k, j):
    if isinstance(e, bool):
        return e
    return z3.substitute(e, (k, Bd.T_int(j)))


def reduce_sum(a, axis, dtype=None, keepdims=False):
    dt = a.dtype
    if dt.kind == "b":
        out = I8
    elif dt.kind in "iu":
        out = np.dtype(dtype) if dtype is not None else (
            I8 if dt.kind == "i" else np.dtype(np.uint64))
    else:
        out = dt
    if dt.names is not None:
        raise TypeError("cannot perform reduce with flexible type")
    if dtype is not None:
        out = np.dtype(dtype)
    if dt.kind == "b" and out.kind == "b":
        return reduce_any(a, axis, keepdims)
    return fold_axis(a, axis, sum_fold, out, keepdims)


def reduce_any(a, axis, keepdims=False):
    return fold_axis(a, axis, lambda n, f: T.mkbool(Bd.any_term(
        n, lambda k: T.bool_e(f(k)))), B1, keepdims)


def reduce_all(a, axis, keepdims=False):
    return fold_axis(a, axis, lambda n, f: T.mkbool(Bd.all_term(
        n, lambda k: T.bool_e(f(k)))), B1, keepdims)


def ext_fold(largest, initial=None):
    def fold(n, f):
        if isinstance(n, int):
            if n == 0 and initial is None:
                raise ValueError("zero-size array to reduction operation "
                                 "which has no identity")
            r = initial
            for k in range(n):
                v = f(k)
                r = v if r is None else (_maximum if largest else _minimum)(
                    r, v)
            return r
        i = arg_ext(n, f, largest)
        v = f(i)
        if initial is None:
            return v
        g = T.b_z3(i_lt(0, n))
        return T.ite(g, (_maximum if largest else _minimum)(v, initial),
                     initial)
    return fold


def reduce_ext(a, axis, largest, keepdims=False, initial=None):
    if initial is None:
        sh = a.ishape
        axs = range(len(sh)) if axis is None else (
            axis if isinstance(axis, tuple) else (axis,))
        for j in axs:
            if not isinstance(sh[j], int) and ctx().decide(i_eq(sh[j], 0)):
                raise ValueError("zero-size array to reduction operation "
                                 "which has no identity")
    r = fold_axis(a, axis, ext_fold(largest, initial), a.dtype, keepdims)
    return known_size(r)


def known_size(r):
    """The value, by the name the solver proves it equal to, if any."""
    e = getattr(r, "e", None)
    if type(r) is not SInt or isinstance(e, int) or \
            not hasattr(ctx(), "sizes"):
        return r
    from . import solve
    have = {a.get_id() for a in ctx().assumptions}
    for t in ctx().sizes:
        key = (e.get_id(), t.get_id())
        if any(used <= have for used, _ in _sizes.get(key, (0, 0, ()))[2]):
            return SInt(t, r._dt)
    for t in ctx().sizes:
        ne = T.b_z3(T.b_not(i_eq(e, t)))
        fs = solve.cone(list(ctx().assumptions) + [ne])
        eq = T.b_z3(i_eq(e, t))
        if solve.smt(fs[:-1], eq, 5.0, solve.Budget(8), False)[0] == "proved":
            _, _, lst = _sizes.setdefault((e.get_id(), t.get_id()),
                                          (e, t, []))
            lst.append(({a.get_id() for a in fs[:-1]}, fs))
            return SInt(t, r._dt)
    return r


_sizes = {}


def arg_ext(n, f, largest):
    """First index of the extremum (a NaN counts as extreme)."""
    def key(k):
        v = f(k)
        if T.is_intlike(v):
            return z3.ToReal(Bd.T_int(T.int_e(v)))
        v = T.to_real(v)
        for fl in (v.nan, v.pinf, v.ninf):
            if fl is not False and ctx().fold(fl) is not False:
                raise Unsupported("extremum of values that may be special")
        return v.v
    if isinstance(n, int):
        best, bk = 0, key(0)
        for j in range(1, n):
            kj = key(j)
            c = (bk < kj) if largest else (kj < bk)
            c = z3.simplify(c)
            c = True if z3.is_true(c) else False if z3.is_false(c) else \
                ctx().fold(c)
            best = T.t_ite(c, j, best)
            bk = T.t_ite(c, kj, bk) if not isinstance(c, bool) else (
                kj if c else bk)
        return best
    return Bd.argmin_term(n, key, largest)


def reduce_arg(a, axis, largest, keepdims=False):
    if axis is None and a.ndim > 1:
        raise Unsupported("argmin over several axes")
    sh = a.ishape
    j = 0 if axis is None else axis
    nn = sh[j] if sh else 1
    if (isinstance(nn, int) and nn == 0) or (
            not isinstance(nn, int) and ctx().decide(i_eq(nn, 0))):
        raise ValueError("attempt to get argmin of an empty sequence")
    r = fold_axis(a, axis, lambda n, f: SInt(Bd.T_int(
        arg_ext(n, f, largest)), I8), I8, keepdims)
    return r


def method(name, a, args, kw):
    fn = {
        "sum": lambda axis=None, dtype=None, out=None, keepdims=False:
            reduce_sum(a, axis, dtype, keepdims),
        "any": lambda axis=None, out=None, keepdims=False:
            reduce_any(a, axis, keepdims),
        "all": lambda axis=None, out=None, keepdims=False:
            reduce_all(a, axis, keepdims),
        "max": lambda axis=None, out=None, keepdims=False, initial=None:
            reduce_ext(a, axis, True, keepdims, initial),
        "min": lambda axis=None, out=None, keepdims=False, initial=None:
            reduce_ext(a, axis, False, keepdims, initial),
        "argmin": lambda axis=None, out=None, keepdims=False:
            reduce_arg(a, axis, False, keepdims),
        "argmax": lambda axis=None, out=None, keepdims=False:
            reduce_arg(a, axis, True, keepdims),
        "mean": lambda axis=None, dtype=None, out=None, keepdims=False:
            f_mean(a, axis, keepdims=keepdims),
        "var": lambda axis=None, dtype=None, out=None, ddof=0,
            keepdims=False: f_var(a, axis, ddof, keepdims),
        "std": lambda axis=None, dtype=None, out=None, ddof=0,
            keepdims=False: np.sqrt(f_var(a, axis, ddof, keepdims)),
        "conj": lambda: np.conjugate(a), "conjugate": lambda: np.conjugate(a),
        "dot": lambda b: matmul(a, b),
        "diagonal": lambda: f_diagonal(a),
        "nonzero": lambda: f_nonzero(a),
        "take": lambda i, axis=None: f_take(a, i, axis),
        "swapaxes": lambda i, j: swapaxes(a, i, j),
        "clip": lambda lo=None, hi=None: f_clip(a, lo, hi),
        "prod": lambda axis=None: fold_axis(a, axis, prod_fold, a.dtype),
        "argpartition": lambda kth, axis=-1: f_argpartition(a, kth, axis),
        "argsort": lambda axis=-1, **k: f_argsort(a, axis),
        "repeat": lambda r, axis=None: f_repeat(a, r, axis),
    }.get(name)
    if fn is None:
        raise Unsupported(f"array method {name}")
    return fn(*args, **kw)


# ------------------------------------------------------------ functions
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = asarray(a)
    s = reduce_sum(a.astype(F8) if a.dtype.kind in "iub" else a, axis, None,
                   keepdims)
    n = A.prod(a.ishape) if axis is None else a.ishape[axis]
    d = SReal(z3.ToReal(Bd.T_int(n))) if not isinstance(n, int) else \
        float(n)
    return np.true_divide(s, d) if type(s) is SArr else _div(s, d)


def f_var(a, axis=None, ddof=0, keepdims=False, dtype=None):
    a = asarray(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("variance along an axis")
    n = A.prod(a.ishape)
    m = f_mean(a)
    d = a - m
    s = reduce_sum(d * d, None)
    den = i_sub(n, ddof)
    q = SReal(z3.ToReal(Bd.T_int(den))) if not isinstance(den, int) else \
        float(den)
    return _div(s, q)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if not a.dims or not b.dims:
        raise ValueError("matmul: Input operand does not have enough "
                         "dimensions")
    sa, sb = a.ishape, b.ishape
    ka, kb = sa[-1], sb[0 if len(sb) == 1 else -2]
    if A.same_int(ka, kb) is not True:
        raise ValueError("matmul: mismatch in its core dimension")
    if len(sa) > 2 or len(sb) > 2:
        raise Unsupported("stacked matmul")
    fa, fb = a.freeze(), b.freeze()
    n = ka if isinstance(ka, int) else kb
    dt = np.result_type(a.dtype, b.dtype)

    def at(i, j):
        def term(k):
            u = fa((k,) if i is None else (i, k))
            v = fb((k,) if j is None else (k, j))
            return _mul(u, v)
        if dt == B1:
            return T.mkbool(Bd.any_term(n, lambda k: T.bool_e(term(k))))
        return sum_fold(n, term)
    if len(sa) == 1 and len(sb) == 1:
        return finish(at(None, None), dt)
    if len(sa) == 1:
        return A.build((sb[1],), dt, lambda ix: at(None, ix[0]))
    if len(sb) == 1:
        return A.build((sa[0],), dt, lambda ix: at(ix[0], None))
    return A.build((sa[0], sb[1]), dt, lambda ix: at(ix[0], ix[1]))


def shape_of(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(as_int(s) for s in shape)
    return (as_int(shape),)


def check_shape(shape):
    for s in shape:
        if isinstance(s, int):
            if s < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not ctx().decide(i_le(0, s)):
            raise ValueError("negative dimensions are not allowed")
    return shape


def f_empty(shape, dtype=float, order="C", **kw):
    return A.empty(check_shape(shape_of(shape)), dtype or float)


def zero_of(dt, v):
    dt = np.dtype(dt)
    if dt.names:
        base = A.uniform(dt)
        return SStruct(tuple(dt.names), [A.cast(v, base) for _ in dt.names],
                       dt)
    return v


def f_full(shape, fill_value, dtype=None, order="C", **kw):
    if dtype is None:
        dtype = np.dtype(dtype_of(fill_value))
    return A.full(check_shape(shape_of(shape)), zero_of(dtype, fill_value),
                  dtype)


def f_zeros(shape, dtype=float, order="C", **kw):
    return f_full(shape, 0, dtype or float)


def f_ones(shape, dtype=None, order="C", **kw):
    return f_full(shape, 1, dtype or float)


def like(a, dtype, shape):
    a = asarray(a)
    return (a.ishape if shape is None else shape_of(shape),
            a.dtype if dtype is None else np.dtype(dtype))


def f_empty_like(a, dtype=None, order="K", subok=True, shape=None):
    s, d = like(a, dtype, shape)
    return A.empty(s, d)


def f_zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    s, d = like(a, dtype, shape)
    return A.full(s, zero_of(d, 0), d)


def f_ones_like(a, dtype=None, order="K", subok=True, shape=None):
    s, d = like(a, dtype, shape)
    return A.full(s, zero_of(d, 1), d)


def f_full_like(a, fill_value, dtype=None, order="K", subok=True,
                shape=None):
    s, d = like(a, dtype, shape)
    return A.full(s, fill_value, d)


def f_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0,
            **kw):
    a = asarray(x, dtype)
    if type(x) is SArr or is_container(x):
        if copy and (dtype is None or np.dtype(dtype) == x.dtype):
            a = a.copy()
    return a


def f_asarray(x, dtype=None, order=None, copy=None, **kw):
    return asarray(x, dtype)


def f_ascontiguous(x, dtype=None, **kw):
    a = asarray(x, dtype)
    if not a.dims:
        return a.reshape(1)
    return a if contiguous(a) else a.copy()


def contiguous(a):
    """Whether the view walks its buffer in C order without gaps."""
    comps = [c for d in a.dims for c in d
             if not (isinstance(c.n, int) and c.n == 1)]
    want = [j for j, n in enumerate(a.buf.dims)
            if not (isinstance(n, int) and n == 1)]
    got = [c.ax for c in comps]
    if a.rec is not None:
        ax = a.rec[1] if a.rec[0] == "c" else a.rec[2]
        if a.rec[0] == "s" and a.rec[3] != tuple(
                range(len(a.rec[1]))):
            return False
        n = a.buf.dims[ax]
        width = 2 if a.rec[0] == "c" else len(a.rec[1])
        if n != width:
            return False
        got = got + [ax]
    # leading axes may be fixed; everything after must be whole
    if got and want[-len(got):] != got:
        return False
    for j, c in enumerate(comps):
        if c.step != 1:
            return False
        if j > 0:
            if not (isinstance(c.start, int) and c.start == 0 and
                    A.same_int(c.n, a.buf.dims[c.ax]) is True):
                return False
    return True


def f_shape(a):
    return asarray(a).shape


def f_concatenate(xs, axis=0, out=None, dtype=None, casting=None):
    xs = [asarray(x) for x in xs]
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if axis is None:
        xs = [x.reshape(-1) for x in xs]
        nd, axis = 1, 0
    if not -nd <= axis < nd:
        raise np.exceptions.AxisError(axis, nd)
    axis %= nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for j in range(nd):
            if j != axis and A.same_int(x.ishape[j], xs[0].ishape[j]) \
                    is not True:
                if not ctx().decide(i_eq(x.ishape[j], xs[0].ishape[j])):
                    raise ValueError("all the input array dimensions except "
                                     "for the concatenation axis must match "
                                     "exactly")
    dt = np.dtype(dtype) if dtype is not None else np.result_type(
        *[x.dtype for x in xs])
    fs = [x.freeze() for x in xs]
    offs = [0]
    for x in xs:
        offs.append(i_add(offs[-1], x.ishape[axis]))

    def f(ix):
        i = ix[axis]
        r = None
        for j in range(len(xs) - 1, -1, -1):
            c = i_lt(i, offs[j + 1]) if j < len(xs) - 1 else True
            if not isinstance(c, bool):
                c = ctx().fold(c)
            if c is False:
                continue
            q = list(ix)
            q[axis] = i_sub(i, offs[j])
            if r is not None or j < len(xs) - 1 or True:
                lo = i_le(offs[j], i)
                if lo is False:
                    continue
            v = fs[j](tuple(q))
            r = v if r is None or c is True else T.ite(c, v, r)
        return r
    sh = list(xs[0].ishape)
    sh[axis] = offs[-1]
    return A.build(sh, dt, f)


def f_stack(xs, axis=0, out=None, **kw):
    xs = [asarray(x) for x in xs]
    nd = xs[0].ndim + 1
    axis %= nd
    return f_concatenate([expand(x, axis) for x in xs], axis)


def expand(x, axis):
    dims = list(x.dims)
    dims.insert(axis, [])
    return SArr(x.buf, dims, x.fixed, x.rec)


def f_expand_dims(a, axis):
    a = asarray(a)
    return expand(a, axis % (a.ndim + 1))


def atleast_2d(x):
    x = asarray(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    if x.ndim == 1:
        return expand(x, 0)
    return x


def atleast_1d(x):
    x = asarray(x)
    return x.reshape(1) if x.ndim == 0 else x


def f_vstack(xs, **kw):
    return f_concatenate([atleast_2d(x) for x in xs], 0)


def f_hstack(xs, **kw):
    xs = [atleast_1d(x) for x in xs]
    return f_concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def f_column_stack(xs):
    out = []
    for x in xs:
        x = asarray(x)
        out.append(expand(x, 1) if x.ndim == 1 else x)
    return f_concatenate(out, 1)


def f_tile(a, reps):
    a = asarray(a)
    reps = tuple(as_int(r) for r in (reps if isinstance(reps, (tuple, list))
                                     else (reps,)))
    nd = max(a.ndim, len(reps))
    while a.ndim < nd:
        a = expand(a, 0)
    reps = (1,) * (nd - len(reps)) + reps
    for ax, r in enumerate(reps):
        if not isinstance(r, int):
            if isinstance(a.ishape[ax], int) and a.ishape[ax] == 1:
                f = a.freeze()
                sh = list(a.ishape)
                sh[ax] = r
                a = A.build(sh, a.dtype, lambda ix, f=f, ax=ax: f(
                    tuple(0 if j == ax else i for j, i in enumerate(ix))))
                continue
            raise Unsupported("symbolic tile")
        if r == 0:
            sh = list(a.ishape)
            sh[ax] = 0
            a = A.empty(tuple(sh), a.dtype)
        elif r > 1:
            a = f_concatenate([a] * r, ax)
        else:
            a = a.copy()
    return a


def f_repeat(a, repeats, axis=None):
    a = asarray(a)
    if axis is not None and isinstance(a.ishape[axis], int) and \
            a.ishape[axis] == 1:
        r = [1] * a.ndim
        r[axis] = repeats
        return f_tile(a, tuple(r))
    raise Unsupported("repeat")


def f_where(c, *xy):
    if not xy:
        return f_nonzero(asarray(c))
    x, y = [unwrap(v) for v in xy]
    c = unwrap(c)
    dt = np.result_type(*[dtype_of(v) if type(v) is SArr else
                          np.dtype(dtype_of(v)) if dtype_of(v) not in
                          (int, float, complex) else dtype_of(v)(0)
                          for v in (x, y)])
    return elementwise(lambda p, u, v: T.ite(T.bool_e(p), cv(u, dt),
                                             cv(v, dt)), [c, x, y], dt)


def cv(u, dt):
    if dt.kind == "f":
        return T.to_real(u)
    return u


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = unwrap(a), unwrap(b)

    def f(x, y):
        x, y = T.to_real(x), T.to_real(y)
        d = abs(x - y)
        tol = T.to_real(atol) + T.to_real(rtol) * abs(y)
        fin = b_and(x.finite_flag(), y.finite_flag())
        r = b_or(b_and(fin, T.bool_e(d <= tol)), T.bool_e(x == y))
        if equal_nan:
            r = b_or(r, b_and(x.nan, y.nan))
        return T.mkbool(r)
    return elementwise(f, [a, b], B1)


def f_isin(element, test_elements, assume_unique=False, invert=False, *,
           kind=None):
    if isinstance(test_elements, (set, frozenset)):
        raise Unsupported("isin of a set")
    a, t = asarray(element), asarray(test_elements)
    if t.ndim != 1:
        t = t.reshape(-1)
    f, g, n = a.freeze(), t.freeze(), t.ishape[0]
    inv = bool(invert)

    def at(ix):
        v = f(ix)
        r = Bd.any_term(n, lambda j: T.bool_e(_cmp("==")(v, g((j,)))))
        return T.mkbool(b_not(r) if inv else r)
    if not a.dims:
        return finish(at(()), B1)
    return A.build(a.ishape, B1, at)


def f_nonzero(a):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("nonzero of a matrix")
    return (f_flatnonzero(a),)


def f_flatnonzero(a):
    a = asarray(a)
    if a.ndim != 1:
        a = a.reshape(-1)
    f = a.freeze()
    sel = Bd.Selection(a.ishape[0], lambda k: T.bool_e(f((k,))))
    return A.build((sel.count,), I8,
                   lambda ix: SInt(Bd.T_int(sel.sel(ix[0])), I8))


def f_count_nonzero(a, axis=None, keepdims=False):
    a = asarray(a)
    return fold_axis(a, axis, lambda n, f: T.mkint(Bd.count_term(
        n, lambda k: T.bool_e(f(k)))), I8, keepdims)


def f_angle(z, deg=False):
    z = unwrap(z)
    if deg:
        raise Unsupported("angle in degrees")
    return elementwise(lambda c: T.x_phase(c), [z], F8)


def f_real(z):
    z = unwrap(z)
    return z.real if hasattr(z, "real") else z


def f_imag(z):
    z = unwrap(z)
    return z.imag


def f_fill_diagonal(a, val, wrap=False):
    if type(a) is not SArr:
        raise Unsupported("fill_diagonal of a foreign array")
    if a.ndim < 2:
        raise ValueError("array must be at least 2-d")
    if a.ndim > 2:
        raise Unsupported("fill_diagonal of more dimensions")
    n, m = a.ishape
    if isinstance(val, (list, tuple, np.ndarray)) and type(val) is not SArr:
        val = asarray(val)
    if A.same_int(n, m) is not True:
        if isinstance(n, int) and isinstance(m, int):
            n = min(n, m)
        else:
            n = n if ctx().decide(i_le(n, m)) else m
    if type(val) is SArr and val.dims:
        if A.same_int(val.ishape[0], n) is not True:
            raise Unsupported("diagonal values of another length")
        vf = val.freeze()
        rd = lambda i: vf((i,))
    else:
        v0 = val.item() if type(val) is SArr else val
        rd = lambda i: v0
    if isinstance(n, int):
        vals = [rd(i) for i in range(n)]
        for i in range(n):
            X.emit(a, [], True, a.locate((i, i)), vals[i])
        return None
    v = Bd.index_var("w")
    X.emit(a, [v], b_and(i_le(0, v), i_lt(v, n)), a.locate((v, v)), rd(v))
    return None


def f_diagonal(a, offset=0):
    a = asarray(a)
    if offset:
        raise Unsupported("offset diagonal")
    n, m = a.ishape
    k = n
    if A.same_int(n, m) is not True:
        if not (isinstance(n, int) and isinstance(m, int)):
            raise Unsupported("diagonal of a symbolic rectangle")
        k = min(n, m)
    f = a.freeze()
    return A.build((k,), a.dtype, lambda ix: f((ix[0], ix[0])))


def f_cross(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.ishape != (3,) or b.ishape != (3,):
        raise Unsupported("cross of matrices")
    f, g = a.freeze(), b.freeze()
    u = [f((i,)) for i in range(3)]
    v = [g((i,)) for i in range(3)]
    r = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
         u[0] * v[1] - u[1] * v[0]]
    return A.build((3,), F8, lambda ix: r[ix[0]])


def f_dot(a, b, out=None):
    a, b = unwrap(a), unwrap(b)
    if type(a) is not SArr or type(b) is not SArr or not a.dims or \
            not b.dims:
        return np.multiply(a, b)
    return matmul(a, b)


def f_outer(a, b):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return np.multiply(expand(a, 1), expand(b, 0))


def f_norm(a, ord=None, axis=None, keepdims=False):
    a = asarray(a)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    if axis is None and a.ndim > 1 and ord == 2:
        raise Unsupported("matrix 2-norm")
    return np.sqrt(reduce_sum(a * a, axis, None, keepdims))


def f_take(a, i, axis=None, **kw):
    a = asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return a[(slice(None),) * axis + (i,)]


def f_take_along(arr, indices, axis=-1):
    arr, idx = asarray(arr), asarray(indices)
    axis %= arr.ndim
    shape = []
    for j in range(arr.ndim):
        shape.append(idx.ishape[j])
    f, g = arr.freeze(), idx.freeze()

    def at(ix):
        q = list(ix)
        q[axis] = as_int(g(tuple(ix)))
        return f(tuple(q))
    along_bounds(g, idx, arr.ishape[axis])
    return A.build(shape, arr.dtype, at)


def along_bounds(g, idx, n):
    if getattr(idx.buf, "perm", None) is not None:
        return
    raise Unsupported("index matrix of unknown range")


def f_put_along(arr, indices, values, axis):
    idx = asarray(indices)
    perm = getattr(idx.buf, "perm", None)
    if perm is None or type(arr) is not SArr:
        raise Unsupported("put_along_axis with an unknown index matrix")
    axis %= arr.ndim
    along_bounds(None, idx, arr.ishape[axis])
    m = idx.ishape[axis]
    vals = unwrap(values)
    rd = reader(vals, idx.ishape) if type(vals) is SArr else (
        lambda ix: vals)
    bound, guard, vidx, loc = X.comp_vars(arr)
    # position of this cell in the permutation of its lane
    p = perm.inverse(vidx, idx)
    g = b_and(guard, i_le(0, p), i_lt(p, m))
    # every lane the same way round
    for j in range(arr.ndim):
        if j != axis and A.same_int(arr.ishape[j], idx.ishape[j]) is not True:
            raise Unsupported("put_along_axis with other lanes")
    q = list(vidx)
    q[axis] = p
    X.emit(arr, bound, g, loc, rd(tuple(q)))
    return None


class Perm:
    """An index matrix whose lanes are permutations (argpartition)."""

    def __init__(self, name, axis, nd):
        self.axis = axis
        self.P = z3.Function(name, *([T.I] * nd), T.I)
        self.Q = z3.Function(name + "inv", *([T.I] * nd), T.I)

    def at(self, ix):
        p = ix[self.axis]
        if not isinstance(p, int) and z3.is_app(p) and p.decl().eq(self.Q):
            if all(Bd.T_int(a).eq(b) for j, (a, b) in enumerate(
                    zip(ix, p.children())) if j != self.axis):
                return p.arg(self.axis)
        return self.P(*[Bd.T_int(i) for i in ix])

    def inverse(self, ix, idx):
        """Where the index matrix ``idx``, a slice of the permutations, has
        the entry ix[axis] in the lane of ix."""
        first = 0
        for j, comps in enumerate(idx.dims):
            if len(comps) != 1 or comps[0].ax != j or comps[0].step != 1:
                raise Unsupported("a rearranged permutation matrix")
            if j == self.axis:
                first = comps[0].start
            elif comps[0].start != 0:
                raise Unsupported("a rearranged permutation matrix")
        if idx.fixed:
            raise Unsupported("a rearranged permutation matrix")
        q = self.Q(*[Bd.T_int(i) for i in ix])
        return q if isinstance(first, int) and first == 0 else \
            T.int_norm(q - Bd.T_int(first))

    def axioms(self, e, f, shape, kth):
        """Facts of an entry of the permutations or of their inverse."""
        d = e.decl()
        if not (d.eq(self.P) or d.eq(self.Q)):
            return []
        n, x = Bd.T_int(shape[self.axis]), e.arg(self.axis)
        ix = e.children()

        def lane(v):
            return [v if j == self.axis else a for j, a in enumerate(ix)]
        ok = z3.And(*[z3.And(a >= 0, a < Bd.T_int(m))
                      for a, m in zip(ix, shape)])
        other = self.Q if d.eq(self.P) else self.P
        out = [z3.Implies(ok, z3.And(e >= 0, e < n,
                                     other(*lane(e)) == x))]
        if d.eq(self.Q):
            kth = Bd.T_int(kth)
            v, t = (T.to_real(f(tuple(lane(w)))) for w in
                    (x, self.P(*lane(kth))))
            sp = [T.b_z3(g) for r in (v, t) for g in (r.nan, r.pinf, r.ninf)]
            ok = z3.And(ok, *[z3.Not(g) for g in sp])
            out.append(z3.Implies(z3.And(ok, e <= kth), v.v <= t.v))
            out.append(z3.Implies(z3.And(ok, e >= kth), v.v >= t.v))
        return out


def f_argpartition(a, kth, axis=-1, kind=None, order=None):
    a = asarray(a)
    axis %= a.ndim
    n = a.ishape[axis]
    kth = as_int(kth)
    if isinstance(kth, int) and kth < 0:
        kth = i_add(kth, n)
    ok = b_and(i_le(0, kth), i_lt(kth, n))
    if not ctx().decide(ok):
        raise ValueError("kth out of bounds")
    pm = Perm(T.fresh_name("argpart"), axis, a.ndim)
    ctx().perms = getattr(ctx(), "perms", [])
    ctx().perms.append((pm, a.freeze(), a.ishape, kth))
    ctx().trust("numpy.argpartition: lanes are permutations whose first kth "
                "entries index values no larger than the later ones")
    r = A.build(a.ishape, I8, lambda ix: SInt(Bd.T_int(pm.at(ix)), I8))
    r.buf.perm = pm
    return r


def f_argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarray(a)
    if a.ndim != 1 or order is not None:
        raise Unsupported("argsort of a matrix")
    n, f = a.ishape[0], a.freeze()
    if isinstance(n, int) and n <= 1:
        return f_arange(n)
    if isinstance(n, int):
        raise Unsupported("argsort of a short array")

    k = Bd.index_var("k")
    mk = ctx().mark()
    ctx().assume(z3.And(k >= 0, k < Bd.T_int(n)))
    v = f((k,))
    if T.is_intlike(v):
        body = Bd.T_int(T.int_e(v))
    else:
        v = T.to_real(v)
        for fl in (v.nan, v.pinf, v.ninf):
            if fl is not False and ctx().fold(fl) is not False:
                raise Unsupported("sorting values that may be special")
        body = v.v
    ctx().reset(mk)
    ctx().trust("numpy.argsort: a permutation of the indices in order of "
                "the values")
    extra = "stable" if stable or kind in ("stable", "mergesort") else None
    d, args = Bd.make("ArgSort", n, k, body, extra=extra, nparams=1)
    Bd.make("Place", n, k, body, extra=extra, nparams=1)
    return A.build((n,), I8, lambda ix: SInt(Bd.app(d, args, ix[0]), I8))


def swapaxes(a, i, j):
    d = list(a.dims)
    d[i], d[j] = d[j], d[i]
    return SArr(a.buf, d, a.fixed, a.rec)


def f_clip(a, lo=None, hi=None, **kw):
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        a = np.minimum(a, hi)
    return a


def f_array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    conds = [i_eq(p, q) for p, q in zip(a.ishape, b.ishape)]
    same_shape = b_and(*conds)
    if same_shape is False:
        return False
    if same_shape is not True and not ctx().decide(same_shape):
        return False
    f, g = a.freeze(), b.freeze()
    eq = A.build(a.ishape, B1, lambda ix: _cmp("==")(f(ix), g(ix)))
    return reduce_all(eq, None)


def f_s2u(arr, dtype=None, copy=False, casting="unsafe"):
    a = asarray(arr)
    if a.rec is None or a.rec[0] != "s":
        raise ValueError("arr must be a structured array")
    _, names, ax, offs, dt = a.rec
    f = a.freeze()
    base = A.uniform(dt) if dtype is None else np.dtype(dtype)

    # consecutive fields are a view in numpy; the copy made here is only
    # distinguishable by writing through it
    if offs == tuple(range(len(names))) and a.buf.dims[ax] == len(names) \
            and base == a.buf.dt:
        return SArr(a.buf, a.dims + [[A.Axis(ax, 0, 1, len(names))]],
                    a.fixed, None)

    def at(ix):
        r = f(ix[:-1])
        if isinstance(ix[-1], int):
            return r.vals[ix[-1]]
        v = r.vals[-1]
        for j in range(len(names) - 1):
            v = T.ite(i_eq(ix[-1], j), r.vals[j], v)
        return v
    return A.build(a.ishape + (len(names),), base, at)


def f_arange(*args, dtype=None, **kw):
    args = [as_int(x) for x in args]
    lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
    if len(args) == 3 and args[2] != 1:
        raise Unsupported("strided arange")
    n = i_sub(hi, lo)
    if not isinstance(n, int) and not ctx().decide(i_le(0, n)):
        n = 0
    return A.build((n,), dtype or I8,
                   lambda ix: SInt(Bd.T_int(i_add(lo, ix[0])), I8))


def f_eye(n, M=None, k=0, dtype=float, **kw):
    n = as_int(n)
    m = n if M is None else as_int(M)
    return A.build((n, m), dtype, lambda ix: T.mkint(T.t_ite(T.b_z3(i_eq(
        ix[0], i_add(ix[1], -k))), 1, 0)))


def f_broadcast_to(a, shape, **kw):
    a = asarray(a)
    shape = shape_of(shape)
    rd = reader(a, shape)
    return A.build(shape, a.dtype, rd)


def entries_listed(f, sh, vals):
    """Every entry of the array is among its values."""
    if isinstance(sh[0], int):
        return
    c = ctx()
    k = Bd.index_var("all")
    for jx in itertools.product(*[range(m) if isinstance(m, int) else ()
                                  for m in sh[1:]]):
        e = Bd.T_int(T.int_e(f((k,) + jx)))
        if not (z3.is_app(e) and e.num_args() >= 1 and
                e.decl().kind() == z3.Z3_OP_UNINTERPRETED and
                e.arg(0).eq(k)):
            continue
        law = z3.Implies(z3.And(k >= 0, k < Bd.T_int(sh[0])), z3.And(
            vals.rank(e) >= 0, vals.rank(e) < vals.count,
            vals.sel(vals.rank(e)) == e))
        c.facts.append(((e.decl().name(),), lambda t, law=law, n=e.num_args(
            ): z3.substitute(law, (k, t.arg(0)))))


def f_unique(a, return_index=False, return_inverse=False,
             return_counts=False, axis=None, *, equal_nan=True, **kw):
    a = asarray(a)
    if axis is not None or return_index or kw or a.dtype.kind not in "iub" \
            or a.rec is not None:
        raise Unsupported("unique")
    f, sh = a.freeze(), a.ishape

    def ent(v, ix=()):
        """v is an entry of a."""
        if len(ix) == len(sh):
            return i_eq(T.int_e(f(ix)), v)
        # concrete axes first
        return Bd.any_term(sh[len(ix)], lambda k: ent(v, ix + (k,)))
    size = A.prod(sh)
    if isinstance(size, int) and size == 0:
        raise Unsupported("unique of nothing")
    vals = Bd.Values(size, ent)
    entries_listed(f, sh, vals)
    ctx().trust("numpy.unique: the distinct entries in increasing order, "
                "the inverse gives their positions")
    dt = a.dtype
    out = [A.build((vals.count,), dt, lambda ix: SInt(
        vals.sel(ix[0]), dt))]
    if return_inverse:
        if not hasattr(ctx(), "sizes"):
            ctx().sizes = []
        top = T.i_sub(vals.count, 1)
        if not any(top.eq(t) for t in ctx().sizes):
            ctx().sizes.append(top)
        out.append(A.build(sh, I8, lambda ix: SInt(vals.rank(
            Bd.T_int(T.int_e(f(ix)))), I8)))
    if return_counts:
        def cnt(ix):
            def go(pre):
                if len(pre) == len(sh):
                    return SInt(Bd.T_int(T.t_ite(i_eq(T.int_e(
                        f(pre)), vals.sel(ix[0])), 1, 0)))
                raise Unsupported("counts of unique")
            if len(sh) != 1:
                raise Unsupported("counts of unique")
            return SInt(Bd.T_int(Bd.count_term(sh[0], lambda k: i_eq(
                T.int_e(f((k,))), vals.sel(ix[0])))), I8)
        out.append(A.build((vals.count,), I8, cnt))
    return out[0] if len(out) == 1 else tuple(out)


def f_shares(a, b, *r):
    a, b = asarray(a), asarray(b)
    if a.buf is not b.buf:
        return False
    return True


def f_copy(a, **kw):
    return asarray(a).copy()


def f_diff(*a, **k):
    raise Unsupported("diff")


def f_all(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_all(asarray(a), axis, keepdims)


def f_any(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_any(asarray(a), axis, keepdims)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_sum(asarray(a), axis, dtype, keepdims)


def f_max(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return reduce_ext(asarray(a), axis, True, keepdims,
                      None if initial is np._NoValue else initial)


def f_min(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return reduce_ext(asarray(a), axis, False, keepdims,
                      None if initial is np._NoValue else initial)


FUNCS = {
    "empty": f_empty, "zeros": f_zeros, "ones": f_ones, "full": f_full,
    "empty_like": f_empty_like, "zeros_like": f_zeros_like,
    "ones_like": f_ones_like, "full_like": f_full_like, "array": f_array,
    "asarray": f_asarray, "asanyarray": f_asarray,
    "ascontiguousarray": f_ascontiguous, "copy": f_copy,
    "require": f_asarray, "shape": f_shape,
    "ndim": lambda a: asarray(a).ndim, "size": lambda a: asarray(a).size,
    "concatenate": f_concatenate, "stack": f_stack, "vstack": f_vstack,
    "hstack": f_hstack, "column_stack": f_column_stack, "tile": f_tile,
    "repeat": f_repeat, "where": f_where, "isclose": f_isclose,
    "isin": f_isin, "nonzero": f_nonzero, "flatnonzero": f_flatnonzero,
    "count_nonzero": f_count_nonzero, "angle": f_angle, "real": f_real,
    "imag": f_imag, "fill_diagonal": f_fill_diagonal,
    "diagonal": f_diagonal, "diag": f_diagonal, "cross": f_cross,
    "dot": f_dot, "inner": f_dot, "vdot": f_dot, "outer": f_outer,
    "norm": f_norm, "take": f_take, "take_along_axis": f_take_along,
    "put_along_axis": f_put_along, "argpartition": f_argpartition,
    "argsort": f_argsort, "clip": f_clip, "array_equal": f_array_equal,
    "structured_to_unstructured": f_s2u, "arange": f_arange,
    "eye": f_eye, "identity": f_eye, "broadcast_to": f_broadcast_to,
    "unique": f_unique, "shares_memory": f_shares,
    "may_share_memory": f_shares, "mean": f_mean, "var": f_var,
    "std": lambda a, axis=None, **k: np.sqrt(f_var(a, axis)),
    "average": lambda a, axis=None, weights=None: f_average(a, axis,
                                                            weights),
    "all": f_all, "any": f_any, "sum": f_sum, "max": f_max, "amax": f_max,
    "min": f_min, "amin": f_min,
    "argmin": lambda a, axis=None, out=None, keepdims=False:
        reduce_arg(asarray(a), axis, False, keepdims),
    "argmax": lambda a, axis=None, out=None, keepdims=False:
        reduce_arg(asarray(a), axis, True, keepdims),
    "reshape": lambda a, shape=None, **k: asarray(a).reshape(shape),
    "ravel": lambda a, order="C": asarray(a).reshape(-1),
    "transpose": lambda a, axes=None: asarray(a).transpose(axes) if axes
        else asarray(a).T,
    "squeeze": lambda a, axis=None: asarray(a).squeeze(axis),
    "expand_dims": f_expand_dims,
    "atleast_1d": atleast_1d, "atleast_2d": atleast_2d,
    "swapaxes": lambda a, i, j: swapaxes(asarray(a), i, j),
    "iscomplexobj": lambda a: asarray(a).dtype.kind == "c",
    "isrealobj": lambda a: asarray(a).dtype.kind != "c",
    "isscalar": lambda a: T.is_sym(a),
    "prod": lambda a, axis=None, **k: fold_axis(asarray(a), axis, prod_fold,
                                                asarray(a).dtype),
    "logical_and": lambda a, b: np.logical_and(a, b),
    "nan_to_num": lambda a, copy=True, nan=0.0, posinf=None, neginf=None:
        f_nan_to_num(a, nan, posinf, neginf),
    "array2string": lambda a, **k: "array", "array_repr": lambda a: "array",
}


def f_nan_to_num(a, nan, posinf, neginf):
    a = unwrap(a)
    big = float(np.finfo(float).max)

    def f(v):
        v = T.to_real(v)
        r = SReal(v.v)
        r = T.ite(v.nan, T.to_real(nan), r)
        r = T.ite(v.pinf, T.to_real(big if posinf is None else posinf), r)
        return T.ite(v.ninf, T.to_real(-big if neginf is None else neginf),
                     r)
    return elementwise(f, [a], F8)


def f_average(a, axis, weights):
    a = asarray(a)
    if weights is None:
        return f_mean(a, axis)
    w = asarray(weights)
    return _div(reduce_sum(a * w, axis), reduce_sum(w, axis))


def array_function(func, args, kwargs):
    name = getattr(func, "__name__", str(func))
    f = FUNCS.get(name)
    if f is None:
        raise Unsupported(f"numpy function {name}")
    if kwargs.get("where", True) not in (True, np._NoValue):
        raise Unsupported("where=")
    return f(*args, **kwargs)


def abs_(x):
    return builtins.abs(x)
