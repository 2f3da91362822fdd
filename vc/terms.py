"""Symbolic scalars over z3 terms, and the execution context.

Floats are extended reals: an exact real value plus NaN / +inf / -inf flags.
Machine integers are mathematical integers.  Zeros carry no sign.
"""
from __future__ import annotations

import itertools
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import fast    # noqa: F401

import builtins as _bi


def isinstance(o, t):
    """isinstance on the engine's own classes, ignoring their disguise."""
    ty = type(o)
    if ty.__module__ == __name__:
        return _bi.issubclass(ty, t)
    return _bi.isinstance(o, t)


# ------------------------------------------------------------------ helpers
R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(BaseException):
    """The engine cannot model this construct: the path is undecided."""
    last = None

    def __init__(self, *a):
        super().__init__(*a)
        Unsupported.last = str(a[0]) if a else "unsupported"


class PathEnd(BaseException):
    """The current path is finished (used by loop rules)."""


class Infeasible(BaseException):
    """The current path condition is unsatisfiable."""


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        k = x.get_id()
        if k not in seen:
            seen.add(k)
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        k = x.get_id()
        if k not in seen:
            seen.add(k)
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_z3(a):
    if a is True:
        return z3.BoolVal(True)
    if a is False:
        return z3.BoolVal(False)
    return a


def b_ite(c, a, b):
    """Boolean ite over python bools / z3 bools."""
    if c is True:
        return a
    if c is False:
        return b
    if a is True and b is False:
        return c
    if a is False and b is True:
        return b_not(c)
    if a is b or (not isinstance(a, bool) and not isinstance(b, bool)
                  and a.eq(b)):
        return a
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    return z3.If(c, a, b)


def t_ite(c, a, b):
    """Arithmetic ite; c python bool or z3 bool."""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        a, b = z3.IntVal(a), z3.IntVal(b)
    elif isinstance(a, int):
        a = z3.IntVal(a)
    elif isinstance(b, int):
        b = z3.IntVal(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


PI = z3.Real("pi")
_PI_MULT = {}
for _k in (0.25, 0.5, 1.0, 2.0, 4.0):
    for _s in (1, -1):
        _PI_MULT[_s * _k * math.pi] = Fraction(_s) * Fraction(_k)


def real_const(x):
    """z3 real for a finite python/numpy number."""
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    x = float(x)
    if x in _PI_MULT:
        m = _PI_MULT[x]
        return PI if m == 1 else z3.RealVal(str(m)) * PI
    fr = Fraction(x)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def int_e(x):
    """int or z3 Int expression from any integer-like value."""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, z3.ArithRef) and x.is_int():
        if z3.is_int_value(x):
            return x.as_long()
        return x
    if isinstance(x, SBool):
        return t_ite(x.e, 1, 0)
    if hasattr(x, "__index__"):
        return int(x.__index__())
    raise Unsupported(f"not an integer: {type(x)}")


def int_norm(e):
    """Constant-fold a z3 Int expression."""
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return s


def i_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return int_norm(a + b)


def i_sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return int_norm(a - b)


def i_mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return int_norm(a * b)


def i_cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b,
                ">=": a >= b}[op]
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return op in ("<=", "==", ">=")
    e = {"<": lambda: a < b, "<=": lambda: a <= b, "==": lambda: a == b,
         ">": lambda: a > b, ">=": lambda: a >= b}[op]()
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def i_lt(a, b):
    return i_cmp("<", a, b)


def i_le(a, b):
    return i_cmp("<=", a, b)


def i_eq(a, b):
    return i_cmp("==", a, b)


# ---------------------------------------------------------- uninterpreted fns
_FN = {}


def fn(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in _FN:
        _FN[key] = z3.Function(name, *sorts)
    return _FN[key]


f_sqrt = fn("sqrt", R, R)
f_sin = fn("sin", R, R)
f_cos = fn("cos", R, R)
f_exp = fn("exp", R, R)
f_log = fn("log", R, R)
f_atan2 = fn("atan2", R, R, R)
f_acos = fn("acos", R, R)
f_pow = fn("pow", R, R, R)

_counter = itertools.count()


def fresh_name(base):
    return f"{base}!{next(_counter)}"


def fresh_int(base="k"):
    return z3.Int(fresh_name(base))


def fresh_real(base="r"):
    return z3.Real(fresh_name(base))


def fresh_bool(base="b"):
    return z3.Bool(fresh_name(base))


# ------------------------------------------------------------------ context
class Obligation:
    __slots__ = ("name", "hyps", "goal", "kind", "status", "backend", "time",
                 "model", "detail", "path")

    def __init__(self, name, hyps, goal, kind="post", path=()):
        self.name, self.hyps, self.goal, self.kind = name, hyps, goal, kind
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.detail = ""
        self.path = path


class OutOfTime(BaseException):
    """Not an Exception: the code under test must not catch it."""


# index variables of sums, counts and quantified formulae: a branch on one
# would hold for all indices or none
BOUND = ("$s", "$c", "$a", "$m", "$w", "$j", "$q", "$all", "$f")


class Explorer:
    """Depth-first enumeration of decisions by re-execution."""

    def __init__(self):
        self.todo = [[]]
        self.prefix = []
        self.pos = 0
        self.trail = []

    def next_prefix(self):
        if not self.todo:
            return False
        self.prefix = self.todo.pop()
        self.pos = 0
        self.trail = []
        return True


def flip(e):
    """b <= a for a >= b (z3 keeps both)."""
    return e.arg(1) <= e.arg(0) if z3.is_ge(e) else None


class Ctx:
    MAX_PATHS = 4000

    def __init__(self):
        self.assumptions = []        # z3 bools (path condition and facts)
        self.known = {}              # id -> True/False
        self.obligations = []
        self.explorer = Explorer()
        self.warned = []             # categories of warnings on this path
        self.filters = [[]]
        self.in_njit = 0
        self.loop_stack = []
        self.trusted = set()
        self.bounded = set()
        self.callee = set()          # functions executed
        self.infeasible_cuts = 0
        self.depth = 0
        self.inputs = []             # symbolic inputs, for counter-models
        self.epoch = 0
        self.loops = []              # active symbolic loops
        self.path = []               # decisions taken
        self.facts = []              # universally quantified hypotheses
        self.inline = set()          # functions not replaced by contracts
        self.deadline = None         # of the path exploration

    # -- assumptions
    def assume(self, c):
        if isinstance(c, SBool):
            c = c.e
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if z3.is_and(c):
            for ch in c.children():
                self.assume(ch)
            return
        self.assumptions.append(c)
        self._know(c, True)

    def _know(self, c, val):
        if z3.is_not(c):
            c, val = c.arg(0), not val
        self.known[c.get_id()] = val
        self._keep = getattr(self, "_keep", [])
        self._keep.append(c)
        s = z3.simplify(c)
        v2 = val
        if z3.is_not(s):
            s, v2 = s.arg(0), not v2
        self.known[s.get_id()] = v2
        self._keep.append(s)
        f = flip(s)
        if f is not None:
            self.known[f.get_id()] = v2
            self._keep.append(f)

    def mark(self):
        return len(self.assumptions), dict(self.known), len(self.path)

    def reset(self, m):
        del self.assumptions[m[0]:]
        del self.path[m[2]:]
        self.known = dict(m[1])
        self.epoch = next(_counter)

    def log_read(self, buf, idx):
        self.loops[-1].log_read(buf, idx)

    def log_read_view(self, view):
        self.loops[-1].log_view(view)

    def log_write(self, buf, w):
        self.loops[-1].log_write(buf, w)

    def quick(self, c, memo=None):
        """True / False / None by cheap means only."""
        if isinstance(c, bool):
            return c
        i = c.get_id()
        v = self.known.get(i)
        if v is not None:
            return v
        if memo is None:
            memo = {}
        elif i in memo:
            return memo[i]
        memo[i] = r = self._quick(c, memo)
        return r

    def _quick(self, c, memo):
        if z3.is_not(c):
            v = self.quick(c.arg(0), memo)
            return None if v is None else (not v)
        if z3.is_and(c):
            r = True
            for ch in c.children():
                v = self.quick(ch, memo)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if z3.is_or(c):
            r = False
            for ch in c.children():
                v = self.quick(ch, memo)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        v = self.known.get(s.get_id())
        if v is not None:
            return v
        if z3.is_not(s):
            v = self.known.get(s.arg(0).get_id())
            return None if v is None else (not v)
        s = flip(s)
        return None if s is None else self.known.get(s.get_id())

    def fold(self, c):
        q = self.quick(c)
        if q is None and z3.is_and(c):
            # drop the conjuncts which are known
            out = [self.fold(x) for x in c.children()]
            if any(x is False for x in out):
                return False
            keep = [x for x in out if x is not True]
            if len(keep) == len(out) and all(
                    x.eq(y) for x, y in zip(keep, c.children())):
                return c
            return b_and(*keep)
        return c if q is None else q

    # -- forks
    def feasible(self, extra):
        from . import solve
        self.on_time()
        return solve.feasible(self.assumptions, extra)

    def on_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime("time budget for path exploration used up")

    def decide(self, c, note=None):
        if isinstance(c, SBool):
            c = c.e
        q = self.quick(c)
        if q is not None:
            return q
        self.on_time()
        ex = self.explorer
        if ex.pos < len(ex.prefix):
            d = ex.prefix[ex.pos]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if ft and ff:
                from . import binders
                if not isinstance(c, bool):
                    for v in binders.index_vars(c):
                        if v.decl().name().split("!")[0] in BOUND:
                            raise Unsupported(
                                "a branch on a quantified index")
                d = True
                ex.todo.append(ex.trail + [False])
                if len(ex.todo) > self.MAX_PATHS:
                    raise Unsupported("too many paths")
            elif ft:
                d = True
            elif ff:
                d = False
            else:
                raise Infeasible()
            ex.prefix = ex.trail + [d]
        ex.pos += 1
        ex.trail = ex.trail + [d]
        d_ = c if d else b_not(c)
        self.path.append(d_)
        self.assume(d_)
        return d

    def choose(self, k):
        """Nondeterministic choice among k alternatives."""
        ex = self.explorer
        if ex.pos < len(ex.prefix):
            d = ex.prefix[ex.pos]
        else:
            d = 0
            for alt in range(k - 1, 0, -1):
                ex.todo.append(ex.trail + [alt])
            ex.prefix = ex.trail + [d]
        ex.pos += 1
        ex.trail = ex.trail + [d]
        return d

    # -- obligations
    def prove(self, name, goal, kind="post"):
        if isinstance(goal, SBool):
            goal = goal.e
        if isinstance(goal, np.bool_):
            goal = bool(goal)
        ob = Obligation(name, list(self.assumptions), goal, kind,
                        tuple(self.explorer.trail))
        self.obligations.append(ob)
        return ob

    def trust(self, what):
        self.trusted.add(what)

    def note_bounded(self, what):
        self.bounded.add(what)


class _Holder:
    ctx: Ctx = None


H = _Holder()


def ctx() -> Ctx:
    return H.ctx


# ------------------------------------------------------------------ scalars
class Sym:
    __array_priority__ = 1000
    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if ctx() is not None:
            ctx().trust("numpy." + ufunc.__name__ + (
                "" if method == "__call__" else "." + method))
        from . import ops
        return ops.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import ops
        return ops.array_function(func, args, kwargs)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return "?"

    # numpy-scalar-like API
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def tolist(self):
        return self.item()

    def copy(self):
        return self

    def reshape(self, *shape):
        from . import ops
        return ops.asarray(self).reshape(*shape)

    def __getitem__(self, key):
        if key == () or key is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def astype(self, dtype, **kw):
        from . import ops
        return ops.cast_scalar(self, np.dtype(dtype))


class SBool(Sym):
    __slots__ = ("e", "py")

    def __init__(self, e, py=False):
        self.e = e
        self.py = py

    @property
    def __class__(self):
        return bool if self.py else np.bool_

    def item(self):
        return SBool(self.e, True)

    dtype = np.dtype(np.bool_)

    def __bool__(self):
        return ctx().decide(self.e)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"SBool({self.e})"

    def __and__(self, o):
        if isinstance(o, bool) or type(o) in (SBool, np.bool_):
            return mkbool(b_and(self.e, bool_e(o)))
        if type(o) is SInt or isinstance(o, (int, np.integer)):
            raise Unsupported("bool & int")
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool) or type(o) in (SBool, np.bool_):
            return mkbool(b_or(self.e, bool_e(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool) or type(o) in (SBool, np.bool_):
            return self != o
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(b_not(self.e))

    def logical_not(self):
        return mkbool(b_not(self.e))

    def __eq__(self, o):
        if isinstance(o, bool) or type(o) in (SBool, np.bool_):
            a, b = self.e, bool_e(o)
            return mkbool(bool_iff(a, b))
        if is_num(o):
            return self._num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(b_not(bool_e(r)))

    def _num(self):
        return SInt(t_ite(self.e, 1, 0))

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return o + self._num()

    def __mul__(self, o):
        return self._num() * o

    def __rmul__(self, o):
        return o * self._num()

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __lt__(self, o):
        return self._num() < o

    def __gt__(self, o):
        return self._num() > o

    def __le__(self, o):
        return self._num() <= o

    def __ge__(self, o):
        return self._num() >= o

    def __truediv__(self, o):
        return self._num() / o

    def __rtruediv__(self, o):
        return o / self._num()

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def item(self):
        return SBool(self.e, True)


def mkbool(e):
    """Python bool when constant, else SBool."""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def bool_e(x):
    if isinstance(x, (bool, np.bool_)) and type(x) is not SBool:
        return bool(x)
    if type(x) is SBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SInt:
        return b_not(i_eq(x.e, 0))
    if type(x) is SReal:
        return b_or(x.nan, x.pinf, x.ninf, b_not(r_eq(x.v, z3.RealVal(0))))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return bool(x)
    raise Unsupported(f"truth of {type(x)}")


def bool_iff(a, b):
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    if a.eq(b):
        return True
    return a == b


def is_num(o):
    return type(o) in (SInt, SReal, SBool, SComplex) or isinstance(
        o, (int, float, complex, np.number, np.bool_))


def is_sym(o):
    return type(o) in (SInt, SReal, SBool, SComplex)


class SInt(Sym):
    __slots__ = ("e", "_dt")

    def __init__(self, e, dt=None):
        if isinstance(e, int):
            e = z3.IntVal(e)
        self.e = e
        self._dt = dt

    @property
    def __class__(self):
        return int if self._dt is None else np.dtype(self._dt).type

    def item(self):
        return SInt(self.e)

    @property
    def dtype(self):
        return np.dtype(self._dt or np.int64)

    def __hash__(self):
        return 11

    def __repr__(self):
        return f"SInt({self.e})"

    def __bool__(self):
        return ctx().decide(b_not(i_eq(self.e, 0)))

    def __int__(self):
        c = int_norm(self.e)
        if isinstance(c, int):
            return c
        raise Unsupported("concrete int needed for symbolic integer")

    def __index__(self):
        return self.__int__()

    def __float__(self):
        return float(self.__int__())

    def _bin(self, o, f, rev=False):
        if type(o) is SReal or type(o) is SComplex:
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            a = to_real(self)
            return f(to_real(o), a) if rev else f(a, to_real(o))
        if isinstance(o, (complex, np.complexfloating)):
            a = to_complex(self)
            return f(to_complex(o), a) if rev else f(a, to_complex(o))
        if is_num(o):
            a, b = self.e, int_e(o)
            if rev:
                a, b = b, a
            return mkint(f(a if not isinstance(a, int) else z3.IntVal(a), b))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if is_num(o):
            return to_real(self, True) / o
        return NotImplemented

    def __rtruediv__(self, o):
        if is_num(o):
            return to_real(o, True) / to_real(self, True)
        return NotImplemented

    def _divmod_ok(self, o):
        d = int_e(o)
        if isinstance(d, int):
            if d == 0:
                raise ZeroDivisionError
            if d > 0:
                return d
        raise Unsupported("integer division by non-constant")

    def __floordiv__(self, o):
        if type(o) is SReal or isinstance(o, float):
            raise Unsupported("float floordiv")
        return mkint(self.e / self._divmod_ok(o))

    def __mod__(self, o):
        if type(o) is SReal or isinstance(o, float):
            raise Unsupported("float mod")
        return mkint(self.e % self._divmod_ok(o))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return mkint(r)
        return to_real(self) ** o

    def __neg__(self):
        return mkint(-self.e, self._dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e), self._dt)

    def _cmp(self, o, op):
        if type(o) is SReal or isinstance(o, (float, np.floating)):
            return getattr(to_real(self), op)(o)
        if is_num(o):
            s = {"__lt__": "<", "__le__": "<=", "__gt__": ">",
                 "__ge__": ">=", "__eq__": "=="}[op]
            return mkbool(i_cmp(s, self.e, int_e(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        r = self._cmp(o, "__eq__")
        if r is NotImplemented:
            return r
        return mkbool(b_not(bool_e(r)))

    def __and__(self, o):
        raise Unsupported("bitwise int")

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self


def mkint(e, dt=None):
    e = int_norm(e)
    if isinstance(e, int) and dt is None:
        return e
    return SInt(e, dt)


def r_eq(a, b):
    if a.eq(b):
        return True
    s = z3.simplify(a == b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def r_lt(a, b):
    if a.eq(b):
        return False
    s = z3.simplify(a < b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


ZERO = z3.RealVal(0)
ONE = z3.RealVal(1)


def is_zero(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def is_one(e):
    return z3.is_rational_value(e) and e.as_fraction() == 1


def r_add(a, b):
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return real_const(a.as_fraction() + b.as_fraction())
    return a + b


def r_neg(a):
    if z3.is_rational_value(a):
        return real_const(-a.as_fraction())
    return -a


def r_sub(a, b):
    if is_zero(b):
        return a
    if is_zero(a):
        return r_neg(b)
    if a.eq(b):
        return ZERO
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return real_const(a.as_fraction() - b.as_fraction())
    return a - b


def r_mul(a, b):
    if is_zero(a) or is_zero(b):
        return ZERO
    if is_one(a):
        return b
    if is_one(b):
        return a
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return real_const(a.as_fraction() * b.as_fraction())
    return a * b


def r_div(a, b):
    if z3.is_rational_value(b) and not is_zero(b):
        return r_mul(a, real_const(1 / b.as_fraction()))
    return a / b


class SReal(Sym):
    """Extended real.  ``py``: division by zero raises (Python / numba)."""
    __slots__ = ("v", "nan", "pinf", "ninf", "py", "dt")

    def __init__(self, v, nan=False, pinf=False, ninf=False, py=False,
                 dt=None):
        self.v, self.nan, self.pinf, self.ninf = v, nan, pinf, ninf
        self.py = py
        self.dt = dt

    @property
    def __class__(self):
        return float if self.py else np.float64

    @property
    def dtype(self):
        return np.dtype(self.dt or np.float64)

    def __hash__(self):
        return 13

    def __repr__(self):
        return f"SReal({self.v}, nan={self.nan}, +inf={self.pinf})"

    def __bool__(self):
        return ctx().decide(bool_e(self))

    def __float__(self):
        if self.finite_flag() is True and z3.is_rational_value(self.v):
            return float(self.v.as_fraction())
        raise Unsupported("concrete float needed for symbolic float")

    __int__ = __float__

    def item(self):
        return SReal(self.v, self.nan, self.pinf, self.ninf, True)

    def finite_flag(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    def special(self):
        return not (self.nan is False and self.pinf is False
                    and self.ninf is False)

    def _lift(self, o):
        if type(o) is SReal:
            return o
        if type(o) is SComplex or isinstance(o, (complex,
                                                 np.complexfloating)):
            return None
        if is_num(o):
            return to_real(o)
        return None

    def _py(self, o):
        # numpy scalars win over python floats
        if type(o) is SReal:
            return self.py and o.py
        if isinstance(o, (np.floating, np.integer)):
            return False
        return self.py

    def __add__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(self, o, lambda a, b: a + b)
        return x_add(self, q, self._py(o))

    def __radd__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(o, self, lambda a, b: a + b)
        return x_add(q, self, self._py(o))

    def __neg__(self):
        return SReal(r_neg(self.v), self.nan, self.ninf, self.pinf, self.py)

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(self, o, lambda a, b: a - b)
        return x_add(self, -q, self._py(o))

    def __rsub__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(o, self, lambda a, b: a - b)
        return x_add(q, -self, self._py(o))

    def __mul__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(self, o, lambda a, b: a * b)
        return x_mul(self, q, self._py(o))

    def __rmul__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(o, self, lambda a, b: a * b)
        return x_mul(q, self, self._py(o))

    def __truediv__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(self, o, lambda a, b: a / b)
        return x_div(self, q, self._py(o))

    def __rtruediv__(self, o):
        q = self._lift(o)
        if q is None:
            return cplx_or_ni(o, self, lambda a, b: a / b)
        return x_div(q, self, self._py(o))

    def __pow__(self, o):
        return x_pow(self, o)

    def __rpow__(self, o):
        return x_pow(to_real(o), self)

    def __abs__(self):
        return SReal(r_abs(self.v), self.nan, b_or(self.pinf, self.ninf),
                     False, self.py)

    def _cmp(self, o, op):
        q = self._lift(o)
        if q is None:
            return NotImplemented
        return mkbool(x_cmp(self, q, op))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self._cmp(o, "==")
        if r is NotImplemented:
            return r
        return mkbool(b_not(bool_e(r)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SReal(ZERO, py=self.py)

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        raise Unsupported("is_integer")


def cplx_or_ni(a, b, f):
    if is_num(a) and is_num(b):
        return f(to_complex(a), to_complex(b))
    return NotImplemented


def r_abs(v):
    if z3.is_rational_value(v):
        return real_const(abs(v.as_fraction()))
    return z3.If(v >= 0, v, -v)


def to_real(x, py=None):
    if type(x) is SReal:
        return x
    if type(x) is SInt:
        return SReal(z3.ToReal(x.e), py=bool(py))
    if type(x) is SBool:
        return SReal(z3.If(x.e, ONE, ZERO), py=bool(py))
    if isinstance(x, (complex, np.complexfloating)) or type(x) is SComplex:
        raise TypeError("complex to real")
    if isinstance(x, (float, np.floating)):
        p = (not isinstance(x, np.floating) or True) if py is None else py
        x = float(x)
        if math.isnan(x):
            return SReal(ZERO, nan=True, py=p)
        if math.isinf(x):
            return SReal(ZERO, pinf=x > 0, ninf=x < 0, py=p)
        return SReal(real_const(x), py=p)
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return SReal(real_const(int(x)), py=True if py is None else py)
    if isinstance(x, Fraction):
        return SReal(real_const(x), py=True)
    raise Unsupported(f"to_real {type(x)}")


def x_add(a, b, py=False):
    if not a.special() and not b.special():
        return SReal(r_add(a.v, b.v), py=py)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    pinf = b_and(b_not(nan), b_or(a.pinf, b.pinf))
    ninf = b_and(b_not(nan), b_or(a.ninf, b.ninf))
    return SReal(r_add(a.v, b.v), nan, pinf, ninf, py)


def sgn_flags(a):
    """(is positive, is negative) for non-nan a."""
    fin = b_not(b_or(a.pinf, a.ninf))
    pos = b_or(a.pinf, b_and(fin, r_lt(ZERO, a.v)))
    neg = b_or(a.ninf, b_and(fin, r_lt(a.v, ZERO)))
    return pos, neg


def x_mul(a, b, py=False):
    if not a.special() and not b.special():
        return SReal(r_mul(a.v, b.v), py=py)
    ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    ap, an = sgn_flags(a)
    bp, bn = sgn_flags(b)
    azero = b_and(b_not(ap), b_not(an))
    bzero = b_and(b_not(bp), b_not(bn))
    nan = b_or(a.nan, b.nan, b_and(ainf, bzero), b_and(binf, azero))
    anyinf = b_and(b_not(nan), b_or(ainf, binf))
    pos = b_or(b_and(ap, bp), b_and(an, bn))
    neg = b_or(b_and(ap, bn), b_and(an, bp))
    return SReal(r_mul(a.v, b.v), nan, b_and(anyinf, pos),
                 b_and(anyinf, neg), py)


def x_div(a, b, py=False):
    c = ctx()
    raising = py or (c is not None and c.in_njit > 0)
    bfin = b_not(b_or(b.nan, b.pinf, b.ninf))
    bzero = b_and(bfin, r_eq(b.v, ZERO))
    if c is not None:
        bzero = c.fold(bzero)
    if raising and bzero is not False:
        if c.loops:
            if bzero is True or c.feasible(bzero):
                c.prove("no division by zero", b_not(bzero), kind="safety")
                c.assume(b_not(bzero))
        elif c.decide(bzero):
            raise ZeroDivisionError("division by zero")
        bzero = False
    if not a.special() and not b.special() and bzero is False:
        return SReal(r_div(a.v, b.v), py=py)
    ap, an = sgn_flags(a)
    bp, bn = sgn_flags(b)
    ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    azero = b_and(b_not(ap), b_not(an))
    nan = b_or(a.nan, b.nan, b_and(ainf, binf), b_and(azero, bzero))
    inf = b_and(b_not(nan), b_or(ainf, bzero))
    # zero divisors are taken as positive zeros
    bpos = b_or(bp, bzero)
    pos = b_or(b_and(ap, bpos), b_and(an, bn))
    neg = b_or(b_and(an, bpos), b_and(ap, bn))
    v = r_div(a.v, b.v)
    if binf is not False:
        v = t_ite(b_z3(binf), ZERO, v) if binf is not True else ZERO
    return SReal(v, nan, b_and(inf, pos), b_and(inf, neg), py)


def x_cmp(a, b, op):
    ok = b_not(b_or(a.nan, b.nan))
    if op == ">":
        return x_cmp(b, a, "<")
    if op == ">=":
        return x_cmp(b, a, "<=")
    if not a.special() and not b.special():
        if op == "<":
            return r_lt(a.v, b.v)
        if op == "<=":
            return b_not(r_lt(b.v, a.v))
        return r_eq(a.v, b.v)
    af = b_not(b_or(a.pinf, a.ninf))
    bf = b_not(b_or(b.pinf, b.ninf))
    if op == "==":
        return b_and(ok, b_or(
            b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf),
            b_and(af, bf, r_eq(a.v, b.v))))
    lt = b_or(b_and(a.ninf, b_not(b.ninf)), b_and(b.pinf, b_not(a.pinf)),
              b_and(af, bf, r_lt(a.v, b.v)))
    if op == "<":
        return b_and(ok, lt)
    return b_and(ok, b_or(lt, x_cmp(a, b, "==")))


def same(a, b):
    """Identity of two extended reals, NaN equal to NaN (spec equality)."""
    a, b = to_real(a), to_real(b)
    fin = b_and(b_not(b_or(a.nan, a.pinf, a.ninf)))
    return b_and(bool_iff(a.nan, b.nan), bool_iff(a.pinf, b.pinf),
                 bool_iff(a.ninf, b.ninf),
                 b_implies(fin, r_eq(a.v, b.v)))


def ite(c, a, b):
    """ite over any scalars."""
    c = bool_e(c)
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is SComplex or type(b) is SComplex or isinstance(
            a, complex) or isinstance(b, complex):
        a, b = to_complex(a), to_complex(b)
        return SComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if type(a) in (SBool, bool, np.bool_) and type(b) in (SBool, bool,
                                                           np.bool_):
        return mkbool(b_ite(c, bool_e(a), bool_e(b)))
    if is_intlike(a) and is_intlike(b):
        return mkint(t_ite(c, int_e(a), int_e(b)), getattr(a, "_dt", None))
    if isinstance(a, SStruct):
        return SStruct(a.names, [ite(c, x, y)
                                 for x, y in zip(a.vals, b.vals)], a.dtype)
    a, b = to_real(a), to_real(b)
    return SReal(t_ite(c, a.v, b.v), b_ite(c, a.nan, b.nan),
                 b_ite(c, a.pinf, b.pinf), b_ite(c, a.ninf, b.ninf),
                 a.py and b.py)


def is_intlike(a):
    return type(a) in (SInt, SBool) or isinstance(
        a, (int, np.integer, np.bool_))


def x_pow(a, o):
    if type(o) is SReal and not o.special() and z3.is_rational_value(o.v):
        fr = o.v.as_fraction()
        if fr.denominator == 1:
            o = int(fr)
        elif fr == Fraction(1, 2):
            return x_sqrt(a)
    if isinstance(o, (float, np.floating)) and float(o).is_integer():
        o = int(o)
    if isinstance(o, (float, np.floating)) and float(o) == 0.5:
        return x_sqrt(a)
    if isinstance(o, (int, np.integer)):
        o = int(o)
        if 0 <= o <= 6:
            if o == 0:
                return SReal(ONE, py=a.py)
            r = a
            for _ in range(o - 1):
                r = x_mul(r, a, a.py)
            return r
        if -6 <= o < 0:
            return x_div(SReal(ONE), x_pow(a, -o), a.py)
        raise Unsupported("large power")
    q = to_real(o)
    # real exponent: base must be positive
    nan = b_or(a.nan, q.nan, b_and(b_not(b_or(a.pinf, a.ninf)),
                                   r_lt(a.v, ZERO)))
    if a.pinf is False and a.ninf is False and q.pinf is False \
            and q.ninf is False:
        zero = b_and(b_not(nan), r_eq(a.v, ZERO))
        c = ctx()
        if c is not None:
            zero = c.fold(zero)
        inf = b_and(zero, r_lt(q.v, ZERO))
        return SReal(f_pow(a.v, q.v), nan, inf, False, a.py)
    raise Unsupported("pow with infinities")


def x_sqrt(a):
    a = to_real(a)
    neg = b_or(a.ninf, b_and(b_not(b_or(a.nan, a.pinf)), r_lt(a.v, ZERO)))
    c = ctx()
    if c is not None:
        neg = c.fold(neg)
        if neg is not False and is_nonneg(a.v):
            neg = b_or(a.ninf)
    if z3.is_rational_value(a.v):
        fr = a.v.as_fraction()
        if fr >= 0:
            n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if n * n == fr.numerator and d * d == fr.denominator:
                return SReal(real_const(Fraction(n, d)), a.nan, a.pinf,
                             False, a.py)
    return SReal(f_sqrt(a.v), b_or(a.nan, neg), a.pinf, False, a.py)


def is_nonneg(e, depth=0):
    """Cheap syntactic non-negativity."""
    if depth > 12:
        return False
    if z3.is_rational_value(e):
        return e.as_fraction() >= 0
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        return all(is_nonneg(c, depth + 1) for c in ch)
    if k == z3.Z3_OP_MUL:
        # pairs of equal factors
        rest = {}
        for c in ch:
            rest.setdefault(c.get_id(), [c, 0])[1] += 1
        return all(n % 2 == 0 or is_nonneg(c, depth + 1)
                   for c, n in rest.values())
    if k == z3.Z3_OP_DIV:
        return is_nonneg(ch[0], depth + 1) and is_nonneg(ch[1], depth + 1)
    if k == z3.Z3_OP_ITE:
        c, a, b = ch
        # If(v >= 0, v, -v)
        if z3.is_ge(c) and c.arg(0).eq(a) and is_zero(c.arg(1)):
            return True
        return is_nonneg(a, depth + 1) and is_nonneg(b, depth + 1)
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n in ("sqrt", "exp", "pi", "pow", "acos"):
            return True
        from . import binders
        return binders.nonneg_app(e)
    if k == z3.Z3_OP_TO_REAL:
        return ch[0].decl().kind() == z3.Z3_OP_UNINTERPRETED and \
            ch[0].decl().name().startswith(("Cnt!", "Rank!"))
    return False


def lin_fn(name):
    return name


class SComplex(Sym):
    __slots__ = ("re", "im", "py")

    def __init__(self, re, im, py=False):
        self.re, self.im = re, im
        self.py = py

    @property
    def __class__(self):
        return complex if self.py else np.complex128

    dtype = np.dtype(np.complex128)

    def __hash__(self):
        return 17

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SComplex(self.re, -self.im, self.py)

    conj = conjugate

    def _o(self, o):
        return to_complex(o) if is_num(o) else None

    def __add__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SComplex(
            self.re + o.re, self.im + o.im, self.py)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SComplex(
            self.re - o.re, self.im - o.im, self.py)

    def __rsub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        if type(o) is SComplex or isinstance(o, (complex,
                                                 np.complexfloating)):
            o = to_complex(o)
            return SComplex(self.re * o.re - self.im * o.im,
                            self.re * o.im + self.im * o.re, self.py)
        if is_num(o):
            o = to_real(o)
            return SComplex(self.re * o, self.im * o, self.py)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is SComplex or isinstance(o, (complex,
                                                 np.complexfloating)):
            o = to_complex(o)
            d = o.re * o.re + o.im * o.im
            n = self * o.conjugate()
            return SComplex(n.re / d, n.im / d, self.py)
        if is_num(o):
            o = to_real(o)
            return SComplex(self.re / o, self.im / o, self.py)
        return NotImplemented

    def __rtruediv__(self, o):
        return to_complex(o) / self

    def __neg__(self):
        return SComplex(-self.re, -self.im, self.py)

    def __abs__(self):
        return x_sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mkbool(b_and(bool_e(self.re == o.re), bool_e(self.im == o.im)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(b_not(bool_e(r)))

    def __bool__(self):
        return bool(self != 0)

    def __pow__(self, o):
        if isinstance(o, int) and 1 <= o <= 4:
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        raise Unsupported("complex pow")

    def __repr__(self):
        return f"SComplex({self.re}, {self.im})"

    def item(self):
        return SComplex(self.re.item() if hasattr(self.re, "item") else
                        self.re, self.im.item() if hasattr(self.im, "item")
                        else self.im, True)


def to_complex(x):
    if type(x) is SComplex:
        return x
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return SComplex(to_real(x.real), to_real(x.imag))
    return SComplex(to_real(x), to_real(0.0))


class SStruct:
    """A numpy.void-like record."""
    __hash__ = None

    def __init__(self, names, vals, dtype):
        self.names, self.vals, self.dtype = names, list(vals), dtype

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.vals[self.names.index(k)]
        return self.vals[k]

    def tolist(self):
        return tuple(v.item() if hasattr(v, "item") else v
                     for v in self.vals)

    item = tolist

    def __len__(self):
        return len(self.vals)

    def __iter__(self):
        return iter(self.vals)

    def __repr__(self):
        return f"SStruct({self.names}, {self.vals})"

    shape = ()
    ndim = 0


# ------------------------------------------------------- elementary functions
def x_copysign(a, b):
    a, b = to_real(a), to_real(b)
    bp, bn = sgn_flags(b)
    m = abs(a)
    return ite(bn, -m, m)


def x_sin(a):
    a = to_real(a)
    return SReal(trig("sin", a.v), b_or(a.nan, a.pinf, a.ninf), py=a.py)


def x_cos(a):
    a = to_real(a)
    return SReal(trig("cos", a.v), b_or(a.nan, a.pinf, a.ninf), py=a.py)


def trig(which, v):
    f = f_sin if which == "sin" else f_cos
    if is_zero(v):
        return ZERO if which == "sin" else ONE
    return f(v)


def r_exp(v):
    return ONE if is_zero(v) else f_exp(v)


def x_exp(a):
    a = to_real(a)
    v = r_exp(a.v)
    if a.ninf is not False:
        v = t_ite(b_z3(a.ninf), ZERO, v)
    return SReal(v, a.nan, a.pinf, False, a.py)


def x_expm1(a):
    return x_exp(a) - 1.0


def x_cosh(a):
    a = to_real(a)
    v = r_mul(real_const(0.5), r_add(r_exp(a.v), r_exp(r_neg(a.v))))
    return SReal(v, a.nan, b_or(a.pinf, a.ninf), False, a.py)


def x_sinh(a):
    a = to_real(a)
    v = r_mul(real_const(0.5), r_sub(r_exp(a.v), r_exp(r_neg(a.v))))
    return SReal(v, a.nan, a.pinf, a.ninf, a.py)


def x_tanh(a):
    a = to_real(a)
    if a.special():
        raise Unsupported("tanh of special")
    return x_sinh(a) / x_cosh(a)


def x_log(a):
    a = to_real(a)
    fin = b_not(b_or(a.nan, a.pinf, a.ninf))
    neg = b_or(a.ninf, b_and(fin, r_lt(a.v, ZERO)))
    zero = b_and(fin, r_eq(a.v, ZERO))
    c = ctx()
    if c is not None:
        neg, zero = c.fold(neg), c.fold(zero)
    if is_one(a.v):
        return SReal(ZERO, py=a.py)
    return SReal(f_log(a.v), b_or(a.nan, neg), a.pinf, zero, a.py)


def x_log1p(a):
    return x_log(to_real(a) + 1.0)


def x_atanh(a):
    a = to_real(a)
    # arctanh(t) = log((1 + t) / (1 - t)) / 2, +-inf at +-1, nan outside
    fin = b_not(b_or(a.nan, a.pinf, a.ninf))
    one = b_and(fin, r_eq(a.v, ONE))
    mone = b_and(fin, r_eq(a.v, real_const(-1)))
    out = b_or(a.pinf, a.ninf, b_and(fin, b_or(r_lt(ONE, a.v),
                                               r_lt(a.v, real_const(-1)))))
    v = r_mul(real_const(0.5), f_log(r_div(r_add(ONE, a.v),
                                           r_sub(ONE, a.v))))
    if is_zero(a.v):
        v = ZERO
    return SReal(v, b_or(a.nan, out), one, mone, a.py)


def x_asinh(a):
    a = to_real(a)
    v = f_log(r_add(a.v, f_sqrt(r_add(r_mul(a.v, a.v), ONE))))
    return SReal(v, a.nan, a.pinf, a.ninf, a.py)


def x_atan2(y, x):
    y, x = to_real(y), to_real(x)
    if b_or(y.pinf, y.ninf, x.pinf, x.ninf) is not False:
        raise Unsupported("atan2 of infinities")
    if is_zero(y.v) and z3.is_rational_value(x.v):
        v = ZERO if x.v.as_fraction() >= 0 else PI
        return SReal(v, b_or(y.nan, x.nan), py=y.py)
    return SReal(f_atan2(y.v, x.v), b_or(y.nan, x.nan), py=y.py and x.py)


def x_acos(a):
    a = to_real(a)
    if a.special():
        raise Unsupported("acos of special")
    out = b_or(r_lt(ONE, a.v), r_lt(a.v, real_const(-1)))
    c = ctx()
    if c is not None:
        out = c.fold(out)
    return SReal(f_acos(a.v), out, py=a.py)


def x_hypot(a, b):
    a, b = to_real(a), to_real(b)
    s = a * a + b * b
    inf = b_or(a.pinf, a.ninf, b.pinf, b.ninf)
    r = x_sqrt(s)
    if inf is False:
        return r
    return SReal(r.v, b_and(b_or(a.nan, b.nan), b_not(inf)), inf, False, r.py)


def x_max(a, b):
    if is_intlike(a) and is_intlike(b):
        return ite(bool_e(a >= b) if not isinstance(a >= b, bool) else a >= b,
                   a, b)
    a, b = to_real(a), to_real(b)
    return ite(bool_e(a >= b), a, b)


def x_min(a, b):
    if is_intlike(a) and is_intlike(b):
        return ite(bool_e(a <= b), a, b)
    a, b = to_real(a), to_real(b)
    return ite(bool_e(a <= b), a, b)


def x_sign(a):
    if is_intlike(a):
        e = int_e(a)
        return mkint(t_ite(b_z3(i_lt(0, e)), 1,
                           t_ite(b_z3(i_lt(e, 0)), -1, 0)))
    a = to_real(a)
    p, n = sgn_flags(a)
    return SReal(t_ite(b_z3(p), ONE, t_ite(b_z3(n), real_const(-1), ZERO)),
                 a.nan, py=a.py)


def x_isnan(a):
    return mkbool(to_real(a).nan) if is_num(a) else False


def x_isinf(a):
    a = to_real(a)
    return mkbool(b_or(a.pinf, a.ninf))


def x_isfinite(a):
    return mkbool(to_real(a).finite_flag())


def x_phase(c):
    c = to_complex(c)
    return x_atan2(c.im, c.re)


def x_cexp(c):
    c = to_complex(c)
    m = x_exp(c.re) if not is_zero(c.re.v) else to_real(1.0)
    return SComplex(m * x_cos(c.im), m * x_sin(c.im), c.py)
