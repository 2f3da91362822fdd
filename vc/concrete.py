"""Run-time evaluation of the contracts against the real, compiled code."""
from __future__ import annotations

import cmath
import contextlib
import math
import time
import traceback
import warnings

import numpy as np


class Skip(Exception):
    """The drawn inputs do not meet the precondition."""


class Failed(Exception):
    def __init__(self, name, detail=""):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


class CIn:
    """A drawn array: ``arr`` goes to the code, ``at`` reads the original."""

    def __init__(self, arr):
        self.arr = arr
        self.snap = np.array(arr, copy=True)
        self.snap.setflags(write=False)

    def at(self, *idx):
        v = self.snap[tuple(int(i) for i in idx)]
        return v.item() if hasattr(v, "item") else v

    @property
    def shape(self):
        return self.snap.shape

    @property
    def dtype(self):
        return self.snap.dtype

    def fresh(self):
        return self.snap.copy()


def _f(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x


SIMPLE = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 4.0, 0.25, 5.0,
          -4.0, 12.0, 1.5, -1.5, 8.0, -8.0, 10.0]
TINY = [1e-10, -1e-10, 5e-11, 2e-10, 1e-9, -1e-9, 1e-12, 1e-5, -1e-5]


# numbers of the changed source (vc.consts): boundaries worth drawing
NEW = dict(ints=[], floats=[])


def use_constants(ints, floats):
    NEW["ints"] = list(ints)
    NEW["floats"] = sorted({float(v) for v in list(floats) + list(ints)
                            if 1e-9 <= abs(v) <= 1e4})


class ConcreteCx:
    concrete = True
    symbolic = False

    def __init__(self, g, rng, forced=None, lengths=None):
        self.g = g
        self.rng = rng
        self.np = np
        self.drawn = {}
        self.forced = forced or {}
        self.lengths = lengths
        self.checked = 0
        self.style = self.rng.choice(
            ["simple", "simple", "int", "gauss", "mixed", "mixed", "dyadic",
             "scaled"])
        self.scale = 1.0
        if self.style == "scaled":
            self.scale = float(10.0 ** self.rng.integers(-3, 4))
        self.pi = math.pi
        self.inf = math.inf
        self.nan = math.nan

    # ------------------------------------------------------------- inputs
    def _draw(self, name, make):
        if name in self.drawn:
            raise KeyError("drawn twice: " + name)
        if name in self.forced and self.forced[name] is None:
            raise Skip()
        v = self.forced[name] if name in self.forced else make()
        self.drawn[name] = v
        return v

    def size(self, name="n", lo=0, hi=None, cap=None):
        """An array length; ``cap`` only limits run-time evaluation."""
        hi = hi if hi is not None else cap

        def make():
            if self.lengths is not None:
                c = [n for n in self.lengths if n >= lo and
                     (hi is None or n <= hi)]
                return int(self.rng.choice(c))
            top = 12 if hi is None else hi
            near = [v + d for v in NEW["ints"] for d in (-1, 0, 1)
                    if lo <= v + d <= (400 if hi is None else hi)]
            if near and self.rng.random() < 0.25:
                return int(self.rng.choice(near))
            r = self.rng.random()
            if r < 0.30:
                n = int(self.rng.integers(lo, min(top, lo + 3) + 1))
            elif r < 0.97 or hi is not None:
                n = int(self.rng.integers(lo, top + 1))
            else:
                n = int(self.rng.integers(13, 80))
            return n
        n = int(self._draw(name, make))
        if n < lo or n > 400:
            raise Skip()
        return n

    def _num(self, lo=None, hi=None, special=()):
        r = self.rng
        for _ in range(60):
            if NEW["floats"] and r.random() < 0.12:
                v = float(r.choice(NEW["floats"])) * float(r.choice(
                    [1.0, 1.0, -1.0, 0.5, 2.0, 0.999, 1.001]))
            elif special and r.random() < 0.25:
                v = float(r.choice(np.asarray(special, dtype=float)))
            elif self.style == "int":
                v = float(r.integers(-6, 7))
            elif self.style == "dyadic":
                v = float(r.integers(-64, 65)) / 8.0
            elif self.style == "gauss":
                v = float(r.normal() * 3)
            elif self.style == "scaled":
                v = float(r.normal() * self.scale)
            elif self.style == "simple":
                v = float(r.choice(SIMPLE))
            else:
                q = r.random()
                if q < 0.4:
                    v = float(r.choice(SIMPLE))
                elif q < 0.85:
                    v = float(r.normal() * 2)
                else:
                    v = float(r.normal() * 10.0 ** r.integers(-2, 3))
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        a = lo if lo is not None else -5.0
        b = hi if hi is not None else max(5.0, a + 5.0)
        if lo is None:
            a = b - 10.0
        return float(r.uniform(a, b))

    def real(self, name, lo=None, hi=None, special=()):
        v = float(self._draw(name, lambda: self._num(lo, hi, special)))
        if name in self.forced and (lo is not None and v < lo or
                                    hi is not None and v > hi) and \
                v not in special:
            raise Skip()              # the range sampled is a precondition
        return v

    def int(self, name, lo=-5, hi=5, special=()):
        def make():
            if special and self.rng.random() < 0.3:
                return int(self.rng.choice(list(special)))
            near = [v + d for v in NEW["ints"] for d in (-1, 0, 1)
                    if lo <= v + d <= hi]
            if near and self.rng.random() < 0.25:
                return int(self.rng.choice(near))
            return int(self.rng.integers(lo, hi + 1))
        return int(self._draw(name, make))

    def private(self, path, nparams):
        """An internal function, if it is there with that signature."""
        f = self.g
        for x in path.split("."):
            f = getattr(f, x, None)
        import inspect
        try:
            ok = len(inspect.signature(getattr(
                f, "py_func", f)).parameters) == nparams
        except (TypeError, ValueError):
            ok = False
        if not ok:
            raise Skip()
        return f

    def index(self, name, n):
        """An index into a non-empty sequence of length n."""
        if n <= 0:
            raise Skip()
        i = int(self._draw(name, lambda: int(self.rng.integers(0, n))))
        if not 0 <= i < n:
            raise Skip()
        return i

    def bool(self, name):
        return bool(self._draw(name, lambda: bool(self.rng.integers(0, 2))))

    def pick(self, name, options):
        options = list(options)
        i = self._draw(name, lambda: int(self.rng.integers(0, len(options))))
        if not 0 <= int(i) < len(options):
            raise Skip()
        return options[int(i)]

    def floats(self, name, shape, lo=None, hi=None, special=()):
        shape = shape if isinstance(shape, tuple) else (shape,)

        def make():
            n = int(np.prod(shape))
            v = [self._num(lo, hi, special) for _ in range(n)]
            a = np.array(v, dtype=np.float64)
            if n > 1 and self.rng.random() < 0.3:      # ties
                a[self.rng.integers(0, n)] = a[self.rng.integers(0, n)]
            return a.reshape(shape)
        a = self._draw(name, make)
        return CIn(np.array(a, dtype=np.float64).reshape(shape))

    def xfloats(self, name, shape):
        """Any floats, NaN and the infinities included."""
        return self.floats(name, shape, special=(
            0.0, math.nan, math.inf, -math.inf))

    def ints(self, name, shape, dtype="<i4", lo=-9, hi=9, pool=None):
        shape = shape if isinstance(shape, tuple) else (shape,)

        def make():
            n = int(np.prod(shape))
            if pool is not None and self.rng.random() < 0.9:
                v = self.rng.choice(list(pool), size=n)
            else:
                v = self.rng.integers(lo, hi + 1, size=n)
            near = [c + d for c in NEW["ints"] for d in (-1, 0, 1)
                    if lo <= c + d <= hi]
            if near and n and self.rng.random() < 0.3:
                v = np.array(v)
                k = self.rng.random(n) < 0.3
                v[k] = self.rng.choice(near, size=int(k.sum()))
            return np.array(v, dtype=dtype).reshape(shape)
        a = self._draw(name, make)
        return CIn(np.array(a, dtype=dtype).reshape(shape))

    def bools(self, name, shape):
        shape = shape if isinstance(shape, tuple) else (shape,)

        def make():
            p = self.rng.choice([0.0, 0.2, 0.5, 0.5, 0.8, 1.0])
            return self.rng.random(shape) < p
        a = self._draw(name, make)
        return CIn(np.array(a, dtype=np.bool_).reshape(shape))

    def momenta(self, name, n, kind="any", tiny=True):
        """(n, 4) four-momenta.  kind: any | physical | timelike | moving
        (physical with |p| > 0) | transverse (moving with pt > 0)."""
        def make():
            out = np.empty((n, 4))
            for i in range(n):
                out[i] = self._one_pmu(kind, tiny)
            if n > 1 and self.rng.random() < 0.3:
                out[self.rng.integers(0, n)] = out[self.rng.integers(0, n)]
            return out
        a = self._draw(name, make)
        a = np.array(a, dtype=np.float64).reshape(n, 4)
        if name in self.forced and kind != "any":
            self._check_kind(a, kind)
        return CIn(a)

    def _check_kind(self, a, kind):
        """Counter-models are rounded: outside the precondition, skip."""
        for x, y, z, e in a:
            p = math.hypot(x, y, z)
            if not (math.isfinite(p) and e >= 0 and e >= p * (1 - 1e-15)):
                raise Skip()
            if kind == "timelike" and not e * e - p * p > 1e-6 * e * e:
                raise Skip()
            if kind in ("moving", "transverse") and p <= 1e-9:
                raise Skip()
            if kind == "transverse" and math.hypot(x, y) <= 1e-6 * max(
                    1.0, abs(z)):
                raise Skip()

    def _one_pmu(self, kind, tiny):
        r = self.rng
        for _ in range(100):
            x, y, z = self._num(), self._num(), self._num()
            q = r.random()
            if kind != "transverse":
                if q < 0.06:
                    x = y = 0.0
                elif q < 0.10 and tiny:
                    x, y = float(r.choice(TINY)), 0.0
                elif q < 0.13 and kind not in ("moving",):
                    x = y = z = 0.0
            if 0.2 < q < 0.26:
                z = 0.0
            if 0.26 < q < 0.30:
                y = 0.0
            pt = math.hypot(x, y)
            if NEW["floats"] and pt > 0 and r.random() < 0.15:
                c = abs(float(r.choice(NEW["floats"]))) * float(
                    r.choice([1.0, 0.999, 1.001, 0.5, 2.0])) / pt
                x, y = x * c, y * c
                pt = math.hypot(x, y)
            p = math.hypot(pt, z)
            if kind == "moving" and p <= 1e-6:
                continue
            if kind == "transverse" and pt <= 1e-3 * max(1.0, abs(z)):
                continue
            if kind == "any":
                c = r.integers(0, 7)
                e = [p, abs(z), -abs(z), self._num(), p + abs(self._num()),
                     abs(z) + float(r.choice(TINY)) if tiny else p + 1.0,
                     math.hypot(p, self._num())][c]
            elif kind == "timelike":
                m = abs(self._num()) + 0.125
                e = math.hypot(p, m)
                if e * e - p * p < 1e-3:
                    continue
            else:
                c = r.integers(0, 4)
                e = p if c == 0 else math.hypot(p, self._num())
            return x, y, z, e
        return 1.0, 2.0, 3.0, 5.0

    def strings(self, name, n):
        return [f"m{i}" for i in range(n)]

    # ------------------------------------------------------- preconditions
    def assume(self, c):
        if not bool(c):
            raise Skip()

    # ---------------------------------------------------------- quantifiers
    def each(self, n, name="k"):
        return range(int(n))

    def sum(self, n, f):
        return math.fsum(_f(f(k)) for k in range(int(n)))

    def count(self, n, f):
        return sum(1 for k in range(int(n)) if bool(f(k)))

    def any(self, n, f):
        return any(bool(f(k)) for k in range(int(n)))

    def all(self, n, f):
        return all(bool(f(k)) for k in range(int(n)))

    # ---------------------------------------------------------------- logic
    @contextlib.contextmanager
    def opaque_matrix(self, path, shape):
        yield []

    @contextlib.contextmanager
    def assignments(self):
        yield []

    def closed_set(self, n, e, v):
        """The least set of vertices with v closed under the edges."""
        seen, todo, rows = {v}, [v], e.snap.tolist()
        while todo:
            u = todo.pop()
            for a, b in rows:
                if a == u and b not in seen:
                    seen.add(b)
                    todo.append(b)
        return lambda x: x in seen

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not bool(a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        a = a() if callable(a) and bool(c) else a
        b = b() if callable(b) and not bool(c) else b
        return a if bool(c) else b

    # ---------------------------------------------------------------- reals
    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def exp(self, x):
        return math.exp(x)

    def expm1(self, x):
        return math.expm1(x)

    def cosh(self, x):
        return math.cosh(x)

    def sinh(self, x):
        return math.sinh(x)

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def atanh(self, x):
        if x != x or abs(x) > 1:
            return math.nan
        if abs(x) == 1:
            return math.copysign(math.inf, x)
        return math.atanh(x)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def power(self, x, a):
        try:
            return float(np.power(np.float64(x), a))
        except FloatingPointError:
            return math.nan

    def div(self, a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))

    def abs(self, x):
        return abs(x)

    def isfinite(self, x):
        return bool(np.isfinite(x))

    def isnan(self, x):
        return math.isnan(x)

    def wrap(self, a):
        """The angle wrapped into [-pi, pi]."""
        return math.atan2(math.sin(a), math.cos(a))

    def lt(self, a, b):
        return _f(a) < _f(b)

    def real_of(self, i):
        return float(i)

    # ------------------------------------------------------------- equality
    def eq(self, a, b, scale=0.0, tol=1e-9):
        a, b = _f(a), _f(b)
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) <= tol * max(abs(a), abs(b), scale)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(abs(a), abs(b), abs(float(scale)))

    def angle_eq(self, a, b, tol=1e-9):
        """Equality of angles modulo a full turn."""
        a, b = _f(a), _f(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(cmath.exp(1j * a) - cmath.exp(1j * b)) <= tol

    def same(self, a, b):
        """Exact identity (NaN equal to itself)."""
        a, b = _f(a), _f(b)
        if isinstance(a, float) and isinstance(b, (float, int)) and \
                math.isnan(a):
            return b != b
        return bool(a == b)

    def near(self, a, b, tol):
        return abs(_f(a) - _f(b)) <= tol

    # -------------------------------------------------------- postconditions
    def ensure(self, name, cond, detail=None):
        self.checked += 1
        if not bool(cond):
            raise Failed(name, str(detail() if callable(detail) else
                                   detail or ""))

    def ensure_shape(self, name, a, shape):
        got = np.shape(a)
        self.ensure(name + ".shape", tuple(got) == tuple(shape),
                    f"shape {got} != {shape}")

    def ensure_len(self, name, a, n):
        self.ensure(name + ".len", len(a) == n, f"len {len(a)} != {n}")

    def ensure_array(self, name, a, shape, f, exact=True, scale=0.0,
                     tol=1e-9):
        """a has this shape and a[idx] equals f(*idx) everywhere."""
        self.ensure_shape(name, a, shape)
        a = np.asarray(a)
        for idx in np.ndindex(*a.shape):
            want = _f(f(*idx))
            got = _f(a[idx])
            ok = self.same(got, want) if exact else self.eq(
                got, want, scale, tol)
            if not ok:
                self.ensure(name, False, f"at {idx}: {got!r} != {want!r}")
        self.checked += 1

    def unchanged(self, name, cin):
        a, b = np.asarray(cin.arr), cin.snap
        ok = a.shape == b.shape and a.tobytes() == b.tobytes()
        self.ensure(name + ".unchanged", ok, "an input array was altered")

    def watch(self, a):
        """An array now, to be compared later."""
        a = np.asarray(a)
        return a, a.dtype, a.shape, a.tobytes()

    def intact(self, name, w):
        a, dt, shape, b = w
        self.ensure(name, a.dtype == dt and a.shape == shape and
                    a.tobytes() == b)

    def dtype_is(self, a, dt):
        return np.asarray(a).dtype == np.dtype(dt)

    def same_bytes(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.tobytes() == b.tobytes()

    def shares(self, a, b):
        return bool(np.shares_memory(np.asarray(a), np.asarray(b)))

    def same_index(self, i, j):
        return int(i) == int(j)

    def copy_of(self, cin):
        return cin.fresh()

    def structured(self, fields, dt):
        names = list(fields)
        n = len(fields[names[0]].snap)
        a = np.empty(n, dtype=[(k, dt) for k in names])
        for k in names:
            a[k] = fields[k].snap
        return a

    def selects(self, name, n, sel, out, f, same=None):
        """out lists f(i) for the i with sel true, in order."""
        idx = [i for i in range(int(n)) if bool(sel.at(i))]
        self.ensure(name + ": count", len(out) == len(idx),
                    f"{len(out)} != {len(idx)}")
        for k, i in enumerate(idx):
            got, want = out[k], f(i)
            ok = same(got, want) if same else self.same(got, want)
            self.ensure(name, ok, f"{got} != {want} at {k}")

    def raises(self, exc, thunk):
        """The exception (or None) that thunk raised; others propagate."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                thunk()
        except exc as e:
            return e
        return None

    def warnings(self, thunk):
        """(result, [warning categories]) of a call."""
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            r = thunk()
        return r, [w.category for w in rec]

    def quiet(self, thunk):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return thunk()


    # ------------------------------------------------------- optimisation
    def minimize_calls(self, thunk):
        """(result, the calls of scipy.optimize.minimize it made)."""
        from . import rt
        rt.MINIMIZE.clear()
        r = self.quiet(thunk)
        return r, [MinCall(self, *c) for c in rt.MINIMIZE]

    def derivative(self, f, at, j):
        h = 1e-5
        lo, hi = list(at), list(at)
        lo[j] -= h
        hi[j] += h
        return (f(*hi) - f(*lo)) / (2 * h)


class MinCall:
    """A recorded call of scipy.optimize.minimize over two axis angles."""

    def __init__(self, cx, args, kw, result):
        names = ("fun", "x0", "args", "method", "jac", "hess", "hessp",
                 "bounds")
        a = dict(zip(names, args), **kw)
        self.cx, self.f, self.jac = cx, a["fun"], a.get("jac")
        extra = a.get("args", ())
        self.args = extra if isinstance(extra, tuple) else (extra,)
        self.bounds = a.get("bounds")
        self.fun = float(result.fun)
        self.x0 = np.asarray(a["x0"], dtype=float)
        self.at_start = self.value(*self.x0)

    def value(self, u, v):
        r = self.f(np.array([u, v]), *self.args)
        return float(r[0] if self.jac is True else r)

    def gradient(self, u, v, j):
        x = np.array([u, v])
        if self.jac is True:
            return float(self.f(x, *self.args)[1][j])
        if callable(self.jac):
            return float(self.jac(x, *self.args)[j])
        return None

    def covers_hemisphere(self):
        if self.bounds is None:
            return True
        b = self.bounds
        if hasattr(b, "lb"):
            b = list(zip(np.broadcast_to(b.lb, 2), np.broadcast_to(b.ub, 2)))
        b = [(-math.inf if lo is None else lo, math.inf if hi is None else hi)
             for lo, hi in b]
        for _ in range(24):
            n = self.cx.rng.normal(size=3)
            ok = False
            for s in (n, -n):
                th = math.atan2(math.hypot(s[0], s[1]), s[2])
                ph = math.atan2(s[1], s[0])
                for t, p in ((th, ph), (-th, ph + math.pi)):
                    for i in (-2, 0, 2):
                        for j in (-2, 0, 2):
                            u, v = p + i * math.pi, t + j * math.pi
                            if (b[0][0] - 1e-9 <= u <= b[0][1] + 1e-9 and
                                    b[1][0] - 1e-9 <= v <= b[1][1] + 1e-9):
                                ok = True
            if not ok:
                return False
        return True


def plain(v):
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return [list(map(plain, r)) for r in v.tolist()]
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (np.generic,)):
        return plain(v.item())
    if isinstance(v, complex):
        return [v.real, v.imag]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    return repr(v)


def evaluate(c, g, rng, forced=None, lengths=None):
    """One evaluation: ('ok' | 'skip' | 'fail', cx, Failed or None)."""
    cx = ConcreteCx(g, rng, forced, lengths or c.lengths)
    try:
        c.body(cx)
        return "ok", cx, None
    except Skip:
        return "skip", cx, None
    except Failed as e:
        return "fail", cx, e
    except Exception as e:                       # the code raised
        tb = traceback.format_exc(limit=-6)
        return "fail", cx, Failed("raised " + type(e).__name__,
                                  f"{e}\n{tb}")


def extreme(v):
    if isinstance(v, dict):
        return any(extreme(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(extreme(x) for x in v)
    return isinstance(v, float) and math.isfinite(v) and v != 0 and \
        not 1e-6 <= abs(v) <= 1e6


def replay_models(c, g, models, seed, variants=24):
    """Counter-models of failed obligations on the real code: as they are,
    then with their arrays redrawn."""
    tried = reached = 0
    for j, m in enumerate(models):
        for v in range(variants + 1):
            forced = dict(m)
            if v:
                forced = {k: x for k, x in m.items()
                          if not isinstance(x, list) or (v % 3 == 0 and
                                                         k < "n")}
                if v > 12:
                    forced = {k: x for k, x in forced.items()
                              if not isinstance(x, float)}
            if extreme(forced):          # rounding would decide
                continue
            rng = np.random.default_rng([seed, j, v, abs(hash_str(c.key))])
            tried += 1
            try:
                st, cx, err = evaluate(c, g, rng, forced)
            except ValueError:           # the shapes do not fit
                continue
            if st == "ok":
                reached += 1
            if st == "fail":
                return dict(status="fail", error=err, inputs=cx.drawn,
                            tried=tried, case=[seed, j, v],
                            forced=forced)
    return dict(status="ok", tried=tried, reached=reached)


def run(c, g, seed, budget, min_cases=20, max_cases=100000):
    """Evaluate a contract on seeded random inputs for ``budget`` seconds."""
    t0 = time.time()
    n_ok = n_skip = checks = i = 0
    distinct = set()
    samples = []
    while i < max_cases and (i < min_cases or time.time() - t0 < budget):
        rng = np.random.default_rng([seed, i, abs(hash_str(c.key))])
        i += 1
        st, cx, err = evaluate(c, g, rng)
        if st == "skip":
            n_skip += 1
            if n_skip > 50 * (n_ok + 20):
                break
            continue
        if st == "fail":
            return dict(status="fail", cases=n_ok + 1, checks=checks,
                        distinct=len(distinct) + 1, error=err,
                        inputs=cx.drawn, case=[seed, i - 1],
                        samples=samples)
        n_ok += 1
        checks += cx.checked
        try:
            key = repr(plain(cx.drawn))
        except Exception:
            key = str(i)
        distinct.add(hash(key))
        if len(samples) < 1 and cx.drawn:
            samples.append({"contract": c.key, "inputs": plain(cx.drawn)})
        if not cx.drawn:
            break
    return dict(status="ok", cases=n_ok, skipped=n_skip, checks=checks,
                distinct=len(distinct), samples=samples)


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())
