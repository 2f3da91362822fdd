"""Symbolic arrays: views onto buffers whose content is a function of the
index.  Lengths are z3 integers or Python ints."""
from __future__ import annotations

import itertools

import numpy as np
import z3

from . import binders as Bd
from . import terms as T
from .terms import (SBool, SComplex, SInt, SReal, SStruct, Unsupported, b_and,
                    b_not, b_or, ctx, i_add, i_eq, i_le, i_lt, i_mul, i_sub)

SMALL = 128


def as_int(x):
    """int or z3 Int of an index-like value."""
    if type(x) is int:
        return x
    if type(x) is SInt:
        return T.int_norm(x.e)
    return T.int_e(x)


def to_py(n):
    """Length as a Python int or SInt."""
    return n if isinstance(n, int) else T.mkint(n)


def known(c):
    """True/False/None of a Boolean under the path condition, cheaply."""
    if isinstance(c, bool):
        return c
    return ctx().quick(c)


def same_int(a, b):
    """Decide a == b, by the solver when needed, without forking."""
    c = i_eq(a, b)
    q = known(c)
    if q is not None:
        return q
    cx = ctx()
    if not cx.feasible(z3.Not(c)):
        cx._know(c, True)
        return True
    if not cx.feasible(c):
        cx._know(c, False)
        return False
    return None


# ------------------------------------------------------------------ scalars
def cast(v, dt):
    """Scalar v stored into an array of (base) dtype dt."""
    k = dt.kind
    if k == "f":
        if type(v) is SReal:
            return v if not v.py else SReal(v.v, v.nan, v.pinf, v.ninf)
        r = T.to_real(v)
        return SReal(r.v, r.nan, r.pinf, r.ninf)
    if k in "iu":
        if type(v) in (SInt, SBool) or isinstance(v, (bool, int, np.integer,
                                                      np.bool_)):
            return T.SInt(T.int_e(v), dt) if type(v) is not SInt else \
                T.SInt(v.e, dt)
        if isinstance(v, (float, np.floating)):
            return T.SInt(int(v), dt)
        if type(v) is SReal:
            return real_to_int(v, dt)
        raise Unsupported(f"cast {type(v)} to {dt}")
    if k == "b":
        return T.mkbool(T.bool_e(v))
    if k == "O":
        return v
    raise Unsupported(f"cast to {dt}")


def real_to_int(v, dt):
    e = v.v
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL and \
            not v.special():
        return T.SInt(e.arg(0), dt)
    fl = z3.ToInt(e)
    return T.SInt(z3.If(e >= 0, fl, -z3.ToInt(-e)), dt)


def subst(v, pairs):
    """Substitute in every term of a scalar."""
    if not pairs:
        return v

    def s(e):
        if isinstance(e, (bool, int)):
            return e
        r = z3.substitute(e, *pairs)
        return r

    def sb(e):
        if isinstance(e, bool):
            return e
        r = z3.substitute(e, *pairs)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return ctx().fold(r) if ctx() is not None else r
    t = type(v)
    if t is SReal:
        return SReal(s(v.v), sb(v.nan), sb(v.pinf), sb(v.ninf), v.py)
    if t is SInt:
        return SInt(s(v.e), v._dt)
    if t is SBool:
        return T.mkbool(sb(v.e))
    if t is SComplex:
        return SComplex(subst(v.re, pairs), subst(v.im, pairs), v.py)
    if t is SStruct:
        return SStruct(v.names, [subst(x, pairs) for x in v.vals], v.dtype)
    return v


# ------------------------------------------------------------------ buffers
class Write:
    """cells {idx(bound) | guard(bound)} := val(bound)"""
    __slots__ = ("bound", "guard", "idx", "val")

    def __init__(self, bound, guard, idx, val):
        self.bound, self.guard, self.idx, self.val = bound, guard, idx, val

    def match(self, at):
        """(condition, substitution) of this write hitting cell ``at``."""
        pairs = []
        left = list(self.bound)
        conds = []
        todo = list(zip(self.idx, at))
        while todo:
            wait, progress = [], False
            for e, a in todo:
                if isinstance(e, int):
                    conds.append(i_eq(e, a))
                    progress = True
                    continue
                hit = self.invert(e, a, left, pairs)
                if hit is not None:
                    pairs.append(hit)
                    left.remove(hit[0])
                    progress = True
                elif not any(Bd.has_var(e, v) for v in left):
                    conds.append((e, a))
                    progress = True
                else:
                    wait.append((e, a))
            if not progress:
                break
            todo = wait
        conds.extend(todo)
        if left:
            raise Unsupported("a write whose cell does not determine the "
                              "iteration")
        out = []
        for c in conds:
            if isinstance(c, tuple):
                e = z3.substitute(c[0], *pairs) if pairs else c[0]
                out.append(i_eq(T.int_norm(e), c[1]))
            else:
                out.append(c)
        g = self.guard
        if not isinstance(g, bool) and pairs:
            g = z3.substitute(g, *pairs)
            if z3.is_true(g):
                g = True
        cond = b_and(g, *out)
        if not isinstance(cond, bool):
            cond = ctx().fold(cond)
        return cond, pairs


    @staticmethod
    def invert(e, a, left, pairs):
        """(v, value) of the variable which e = a determines."""
        for v in left:
            if e.eq(v):
                return v, Bd.T_int(a)
            if not Bd.has_var(e, v):
                continue
            # affine: v + c
            for sgn in (1, -1):
                off = T.int_norm(e - v if sgn == 1 else e + v)
                if any(Bd.has_var(Bd.T_int(off), u) for u in left):
                    continue
                if pairs and not isinstance(off, int):
                    off = T.int_norm(z3.substitute(off, *pairs))
                r = i_sub(a, off) if sgn == 1 else i_sub(off, a)
                return v, Bd.T_int(r)
        return None


WRITES = [0]


class Buf:
    n_made = itertools.count()

    def __init__(self, dims, dt, content):
        self.dims = tuple(dims)
        self.dt = np.dtype(dt)
        self.id = next(Buf.n_made)
        self.small = None
        self.log = None
        size = 1
        for d in self.dims:
            size = size * d if isinstance(d, int) and isinstance(size, int) \
                else None
            if size is None:
                break
        self.input = None
        if size is not None and size <= SMALL and not isinstance(
                content, np.ndarray):
            cells = np.empty(self.dims, dtype=object)
            for ix in np.ndindex(*self.dims):
                cells[ix] = content(ix)
            content = cells
        if isinstance(content, np.ndarray):
            self.small = content
        self._content = content
        self._memo = {}
        self._epoch = None
        self._cc = None
        self.owner = len(ctx().loops) if ctx() is not None else 0

    def content(self):
        """Snapshot: a function of the index."""
        if self._cc is not None:
            return self._cc
        if self.small is not None:
            cells = self.small

            def read(idx):
                if all(isinstance(i, int) for i in idx):
                    return cells[tuple(idx)]
                out = None
                for ix in np.ndindex(*cells.shape):
                    c = b_and(*[i_eq(i, j) for i, j in zip(idx, ix)])
                    if not isinstance(c, bool):
                        c = ctx().fold(c)
                    if c is False:
                        continue
                    if c is True:
                        return cells[ix]
                    out = cells[ix] if out is None else T.ite(c, cells[ix],
                                                              out)
                if out is None:
                    raise Unsupported("index outside a small array")
                return out
            self._cc = read
            return read
        f = self._content
        memo = {}
        state = [None]

        def read(idx):
            c = ctx()
            if state[0] != c.epoch:
                memo.clear()
                state[0] = c.epoch
            key = tuple(i if isinstance(i, int) else ("z", i.get_id())
                        for i in idx)
            r = memo.get(key)
            if r is None:
                nj, c.in_njit = c.in_njit, 0
                try:
                    r = f(tuple(idx))
                finally:
                    c.in_njit = nj
                memo[key] = (r, idx)
                return r
            return r[0]
        self._cc = read
        return read

    def read(self, idx):
        c = ctx()
        if c.loops:
            c.log_read(self, idx)
        return self.content()(idx)

    def write(self, w: Write):
        c = ctx()
        if getattr(self, "frozen", False):
            raise ValueError("assignment destination is read-only")
        if c.loops:
            c.log_write(self, w)
        self.apply(w)

    def apply(self, w):
        WRITES[0] += 1
        self.version = getattr(self, "version", 0) + 1
        if self.small is not None:
            old = self.small
            new = old.copy()
            for ix in np.ndindex(*old.shape):
                cond, pairs = w.match(ix)
                if cond is False:
                    continue
                v = cast(subst(w.val, pairs), self.dt)
                new[ix] = v if cond is True else T.ite(cond, v, old[ix])
            self.small = new
            self._cc = None
            return
        prev = self.content()
        dt = self.dt

        def content(idx):
            cond, pairs = w.match(idx)
            if cond is False:
                return prev(idx)
            v = cast(subst(w.val, pairs), dt)
            if cond is True:
                return v
            return T.ite(cond, v, prev(idx))
        self._content = content
        self._cc = None

    def restore(self, saved):
        self.small, self._content = saved
        self._cc = None

    def save(self):
        return (self.small, self._content)


class Axis:
    __slots__ = ("ax", "start", "step", "n")

    def __init__(self, ax, start, step, n):
        self.ax, self.start, self.step, self.n = ax, start, step, n

    def __repr__(self):
        return f"A({self.ax},{self.start},{self.step},{self.n})"


def prod(xs):
    r = 1
    for x in xs:
        r = i_mul(r, x)
    return r


# ------------------------------------------------------------------ arrays
class SArr:
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, buf, dims, fixed, rec=None):
        self.buf = buf
        self.dims = dims              # list of lists of Axis
        self.fixed = fixed            # {buffer axis: index}
        self.rec = rec                # None | ("c", ax, off) |
        #                               ("s", names, ax, offs, dtype)

    @property
    def __class__(self):
        return np.ndarray

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if ctx() is not None:
            ctx().trust("numpy." + ufunc.__name__ + (
                "" if method == "__call__" else "." + method))
        from . import ops
        return ops.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import ops
        return ops.array_function(func, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array by numpy")

    @property
    def __array_interface__(self):
        raise AttributeError

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return f"SArr(shape={self.ishape}, {self.dtype})"

    def __str__(self):
        return repr(self)

    # -- shape
    @property
    def ishape(self):
        return tuple(prod([a.n for a in d]) for d in self.dims)

    @property
    def shape(self):
        return tuple(to_py(n) for n in self.ishape)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return to_py(prod(self.ishape))

    @property
    def dtype(self):
        if self.rec is None:
            return self.buf.dt
        if self.rec[0] == "c":
            return np.dtype(np.complex128)
        return self.rec[4]

    @property
    def nbytes(self):
        raise Unsupported("nbytes")

    @property
    def flags(self):
        raise Unsupported("flags")

    @property
    def base(self):
        raise Unsupported("base")

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        n = self.ishape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("native len of a symbolic array")

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        n = self.ishape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("native iteration over a symbolic array")

    # -- element access
    def locate(self, idx):
        """Buffer index (list with None on the record axis)."""
        out = [None] * len(self.buf.dims)
        for a, v in self.fixed.items():
            out[a] = v
        for comps, i in zip(self.dims, idx):
            m = len(comps)
            if m == 0:
                continue
            parts = []
            if m == 1:
                parts = [i]
            else:
                rem = i
                for a in reversed(comps[1:]):
                    if not isinstance(a.n, int):
                        raise Unsupported("index into a merged axis")
                    if isinstance(rem, int):
                        parts.append(rem % a.n)
                        rem = rem // a.n
                    else:
                        parts.append(T.int_norm(rem % a.n))
                        rem = T.int_norm(rem / a.n)
                parts.append(rem)
                parts.reverse()
            for a, p in zip(comps, parts):
                q = p if a.step == 1 else i_mul(p, a.step)
                out[a.ax] = i_add(q, a.start)
        return out

    def get(self, idx, reader=None):
        """Element at a full index of ints / z3 ints."""
        read = reader or self.buf.read
        loc = self.locate(idx)
        if self.rec is None:
            return read(tuple(loc))
        if self.rec[0] == "c":
            _, ax, off = self.rec
            loc[ax] = off
            re = read(tuple(loc))
            loc[ax] = i_add(off, 1)
            im = read(tuple(loc))
            return SComplex(re, im)
        _, names, ax, offs, dt = self.rec
        vals = []
        for o in offs:
            loc[ax] = o
            vals.append(read(tuple(loc)))
        return SStruct(names, vals, dt)

    def freeze(self):
        """Snapshot of the content as a function of the view index."""
        c = self.buf.content()
        cx = ctx()
        if cx.loops:
            cx.log_read_view(self)
        return lambda idx: self.get(idx, c)

    # -- views
    def view(self, dtype=None, type=None):
        if dtype is None:
            return SArr(self.buf, self.dims, self.fixed, self.rec)
        dt = np.dtype(dtype)
        if dt == self.dtype:
            return SArr(self.buf, self.dims, self.fixed, self.rec)
        want = 1 if dt.names is None and dt.kind != "c" else (
            2 if dt.kind == "c" else len(dt.names))
        base = dt if want == 1 else (np.dtype(np.float64) if dt.kind == "c"
                                     else uniform(dt))
        if base != self.buf.dt:
            raise Unsupported(f"view {self.dtype} as {dt}")
        if self.rec is not None:
            have = 2 if self.rec[0] == "c" else len(self.rec[1])
            if want == have:
                if self.rec[0] == "s":
                    if dt.kind == "c":
                        return SArr(self.buf, self.dims, self.fixed,
                                    ("c", self.rec[2], self.rec[3][0]))
                    return SArr(self.buf, self.dims, self.fixed,
                                ("s", tuple(dt.names), self.rec[2],
                                 self.rec[3], dt))
                raise Unsupported("complex as struct view")
            if want != 1:
                raise Unsupported("record to record view")
            ax, off = (self.rec[1], self.rec[2]) if self.rec[0] == "c" else \
                (self.rec[2], self.rec[3][0])
            if self.rec[0] == "s" and list(self.rec[3]) != list(
                    range(off, off + have)):
                raise Unsupported("view of reordered fields")
            if not self.dims:
                raise ValueError("Changing the dtype of a 0d array is only "
                                 "supported if the itemsize is unchanged")
            dims = [list(d) for d in self.dims]
            dims[-1] = dims[-1] + [Axis(ax, off, 1, have)]
            return SArr(self.buf, dims, self.fixed, None)
        if not self.dims:
            raise ValueError("view of a 0-d array")
        last = list(self.dims[-1])
        if not last:
            raise ValueError("When changing to a larger dtype, its size must "
                             "be a divisor of the total size in bytes")
        a = last[-1]
        if not isinstance(a.n, int) or a.step != 1:
            raise Unsupported("view over a symbolic last axis")
        if a.n % want:
            raise ValueError("When changing to a larger dtype, its size must "
                             "be a divisor of the total size in bytes of the "
                             "last axis of the array.")
        if a.n != want:
            if len(last) == 1 and self.buf.small is not None and \
                    isinstance(a.start, int):
                return self._resplit(want).view(dt)
            raise Unsupported("view splitting an axis")
        dims = [list(d) for d in self.dims[:-1]] + [last[:-1]]
        if dt.kind == "c":
            rec = ("c", a.ax, a.start)
        else:
            rec = ("s", tuple(dt.names), a.ax,
                   tuple(i_add(a.start, j) for j in range(want)), dt)
        return SArr(self.buf, dims, self.fixed, rec)

    def _resplit(self, want):
        raise Unsupported("view splitting an axis")

    def field(self, name):
        _, names, ax, offs, dt = self.rec
        f = dict(self.fixed)
        f[ax] = offs[names.index(name)]
        return SArr(self.buf, self.dims, f, None)

    @property
    def real(self):
        if self.rec is None:
            return self
        if self.rec[0] != "c":
            raise AttributeError("real")
        f = dict(self.fixed)
        f[self.rec[1]] = self.rec[2]
        return SArr(self.buf, self.dims, f, None)

    @property
    def imag(self):
        if self.rec is None:
            return full(self.ishape, 0.0, self.dtype)
        f = dict(self.fixed)
        f[self.rec[1]] = i_add(self.rec[2], 1)
        return SArr(self.buf, self.dims, f, None)

    @property
    def T(self):
        return SArr(self.buf, list(reversed(self.dims)), self.fixed, self.rec)

    def transpose(self, *axes):
        if not axes or axes == (None,):
            return self.T
        if len(axes) == 1:
            axes = tuple(axes[0])
        return SArr(self.buf, [self.dims[a] for a in axes], self.fixed,
                    self.rec)

    def reshape(self, *shape, order="C", copy=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        want = [as_int(s) for s in shape]
        comps = [a for d in self.dims for a in d
                 if not (isinstance(a.n, int) and a.n == 1)]
        ones = [a for d in self.dims for a in d
                if isinstance(a.n, int) and a.n == 1]
        fixed = dict(self.fixed)
        for a in ones:
            fixed[a.ax] = a.start
        if any(isinstance(a.n, int) and a.n == 0 for a in comps):
            total = 0
        else:
            total = None
        if total == 0:
            return self._reshape_empty(want)
        nneg = [j for j, w in enumerate(want) if isinstance(w, int) and
                w < 0]
        if len(nneg) > 1:
            raise ValueError("can only specify one unknown dimension")
        out = [None] * len(want)
        lo, hi = 0, len(comps)

        def take(j, w, left):
            nonlocal lo, hi
            got = []
            p = 1
            guard = 0
            while True:
                if isinstance(w, int) and isinstance(p, int) and p == w:
                    break
                if not (isinstance(w, int) and isinstance(p, int)) and \
                        same_int(p, w):
                    break
                if lo >= hi:
                    self._bad_reshape(want)
                a = comps[lo] if left else comps[hi - 1]
                if isinstance(w, int) and isinstance(a.n, int) and \
                        a.n > w and a.n % w == 0 and p == 1:
                    # split a constant axis
                    if left:
                        inner = a.n // w
                        got.append(Axis(a.ax, a.start, a.step * inner, w))
                        comps[lo] = ("rest", a, inner)
                    raise Unsupported("reshape splits an axis")
                if left:
                    got.append(a)
                    lo += 1
                else:
                    got.insert(0, a)
                    hi -= 1
                p = i_mul(p, a.n)
                guard += 1
                if guard > 12:
                    self._bad_reshape(want)
            out[j] = got
        j = 0
        while j < len(want) and j not in nneg:
            take(j, want[j], True)
            j += 1
        k = len(want) - 1
        while k > j:
            take(k, want[k], False)
            k -= 1
        if nneg:
            out[nneg[0]] = comps[lo:hi]
        elif lo != hi:
            self._bad_reshape(want)
        # merged axes must be contiguous, otherwise numpy copies
        for got in out:
            for a, b in zip(got, got[1:]):
                if not self._mergeable(a, b):
                    c = self.copy()
                    return c.reshape(*want)
        return SArr(self.buf, out, fixed, self.rec)

    def _mergeable(self, a, b):
        return b.ax == a.ax + 1 and b.start == 0 and b.step == 1 and \
            (a.step == 1) and (
                (isinstance(b.n, int) and b.n == self.buf.dims[b.ax]) or
                (not isinstance(b.n, int) and
                 not isinstance(self.buf.dims[b.ax], int) and
                 b.n.eq(self.buf.dims[b.ax])))

    def _reshape_empty(self, want):
        known_ = 1
        for w in want:
            if not (isinstance(w, int) and w < 0):
                known_ = i_mul(known_, w)
        shape = []
        for w in want:
            if isinstance(w, int) and w < 0:
                if known_ == 0:
                    raise ValueError("cannot reshape array of size 0")
                shape.append(0)
            else:
                shape.append(w)
        if not any(isinstance(s, int) and s == 0 for s in shape):
            z = [s for s in shape if not isinstance(s, int)]
            if not z or not all(same_int(s, 0) for s in z[:1]):
                raise ValueError("cannot reshape array of size 0 into shape "
                                 f"{tuple(want)}")
        return empty(tuple(shape), self.dtype)

    def _bad_reshape(self, want):
        n = self.ishape
        if all(isinstance(x, int) for x in n) and all(
                isinstance(w, int) for w in want):
            raise ValueError(f"cannot reshape array of size {prod(n)} into "
                             f"shape {tuple(want)}")
        raise Unsupported(f"reshape {n} to {want}")

    def ravel(self, order="C"):
        return self.reshape(-1)

    def flatten(self, order="C"):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        dims, fixed = [], dict(self.fixed)
        for d in self.dims:
            n = prod([a.n for a in d])
            if isinstance(n, int) and n == 1:
                for a in d:
                    fixed[a.ax] = a.start
            else:
                dims.append(d)
        return SArr(self.buf, dims, fixed, self.rec)

    # -- copies
    def copy(self, order="C"):
        f = self.freeze()
        return build(self.ishape, self.dtype, f, rec=self.rec)

    __copy__ = copy

    def astype(self, dtype, order="K", casting="unsafe", subok=True,
               copy=True):
        dt = np.dtype(dtype)
        if dt == self.dtype:
            return self.copy() if copy else self
        f = self.freeze()
        if self.rec is not None:
            raise Unsupported("astype of records")
        if dt.kind in "SUO":
            raise Unsupported(f"astype {dt}")
        if dt.kind == "c":
            return build(self.ishape, dt, lambda ix: T.to_complex(f(ix)))
        return build(self.ishape, dt, lambda ix: cast(f(ix), dt))

    def fill(self, v):
        self[...] = v

    # -- indexing
    def __getitem__(self, key):
        from . import index
        return index.getitem(self, key)

    def __setitem__(self, key, val):
        from . import index
        index.setitem(self, key, val)

    def item(self, *args):
        if args:
            r = self[args if len(args) > 1 else args[0]]
        else:
            for n in self.ishape:
                if not (isinstance(n, int) and n == 1):
                    if same_int(n, 1) is not True:
                        if isinstance(n, int) or same_int(n, 1) is False:
                            raise ValueError("can only convert an array of "
                                             "size 1 to a Python scalar")
                        raise Unsupported("item of a symbolic-size array")
            r = self.get(tuple(0 for _ in self.dims))
        return r.item() if hasattr(r, "item") else r

    def tolist(self):
        if not self.dims:
            return self.item()
        n = self.ishape[0]
        if isinstance(n, int):
            out = []
            for i in range(n):
                v = self[i]
                out.append(v.tolist() if hasattr(v, "tolist") else v)
            return out
        from . import loop
        a = self.copy()
        return loop.SList(n, lambda k: _tolist(a, k))

    def __bool__(self):
        n = prod(self.ishape)
        if same_int(n, 1):
            return bool(self.get(tuple(0 for _ in self.dims)))
        if isinstance(n, int) and n == 0:
            raise ValueError("The truth value of an empty array is ambiguous.")
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if not self.dims:
            return self.item().__index__()
        raise TypeError("only integer scalar arrays can be converted to a "
                        "scalar index")

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())


def loop_elem(a, k):
    from . import loop
    return loop.elem(a, k)


def _tolist(a, k):
    v = loop_elem(a, k)
    if type(v) is SArr:
        return v.tolist()
    return v.item() if hasattr(v, "item") else v


def uniform(dt):
    """Common base dtype of a structured dtype."""
    s = {dt.fields[n][0] for n in dt.names}
    if len(s) != 1:
        raise Unsupported("mixed structured dtype")
    return s.pop()


# operators via ufuncs
def _op(uf, rev=False):
    def f(self, other):
        if rev:
            return uf(other, self)
        return uf(self, other)
    return f


for _n, _u in dict(add=np.add, sub=np.subtract, mul=np.multiply,
                   truediv=np.true_divide, pow=np.power,
                   floordiv=np.floor_divide, mod=np.remainder,
                   matmul=np.matmul).items():
    setattr(SArr, f"__{_n}__", _op(_u))
    setattr(SArr, f"__r{_n}__", _op(_u, True))
setattr(SArr, "__and__", _op(np.bitwise_and))
setattr(SArr, "__rand__", _op(np.bitwise_and, True))
setattr(SArr, "__or__", _op(np.bitwise_or))
setattr(SArr, "__ror__", _op(np.bitwise_or, True))
setattr(SArr, "__xor__", _op(np.bitwise_xor))
setattr(SArr, "__rxor__", _op(np.bitwise_xor, True))
for _n, _u in dict(lt=np.less, le=np.less_equal, gt=np.greater,
                   ge=np.greater_equal, eq=np.equal,
                   ne=np.not_equal).items():
    setattr(SArr, f"__{_n}__", _op(_u))
SArr.__neg__ = lambda self: np.negative(self)
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: np.absolute(self)
SArr.__invert__ = lambda self: np.invert(self)


def _iop(uf):
    def f(self, other):
        uf(self, other, out=(self,))
        return self
    return f


for _n, _u in dict(iadd=np.add, isub=np.subtract, imul=np.multiply,
                   itruediv=np.true_divide, iand=np.bitwise_and,
                   ior=np.bitwise_or, ipow=np.power,
                   ixor=np.bitwise_xor).items():
    setattr(SArr, f"__{_n}__", _iop(_u))


def _meth(name):
    def f(self, *args, **kw):
        from . import ops
        return ops.method(name, self, args, kw)
    f.__name__ = name
    return f


for _n in ("sum", "prod", "any", "all", "min", "max", "mean", "var", "std",
           "argmin", "argmax", "dot", "conj", "conjugate", "diagonal",
           "trace", "nonzero", "argsort", "argpartition", "cumsum", "round",
           "clip", "take", "swapaxes", "repeat", "searchsorted", "sort"):
    setattr(SArr, _n, _meth(_n))


# ------------------------------------------------------------------ creation
def build(shape, dtype, f, rec=None):
    """A fresh array with content f(index)."""
    dt = np.dtype(dtype)
    shape = tuple(shape)
    nd = len(shape)
    if dt.kind == "c":
        def content(ix):
            v = T.to_complex(f(ix[:-1]))
            if isinstance(ix[-1], int):
                return cast(v.re if ix[-1] == 0 else v.im, F8)
            return T.ite(i_eq(ix[-1], 0), cast(v.re, F8), cast(v.im, F8))
        b = Buf(shape + (2,), F8, content)
        return SArr(b, [[Axis(j, 0, 1, n)] for j, n in enumerate(shape)], {},
                    ("c", nd, 0))
    if dt.names is not None:
        base = uniform(dt)
        names = tuple(dt.names)

        def content(ix):
            v = f(ix[:-1])
            if isinstance(ix[-1], int):
                return cast(v.vals[ix[-1]], base)
            r = cast(v.vals[-1], base)
            for j in range(len(names) - 1):
                r = T.ite(i_eq(ix[-1], j), cast(v.vals[j], base), r)
            return r
        b = Buf(shape + (len(names),), base, content)
        return SArr(b, [[Axis(j, 0, 1, n)] for j, n in enumerate(shape)], {},
                    ("s", names, nd, tuple(range(len(names))), dt))
    if dt.kind in "SU":
        raise Unsupported("string array")
    b = Buf(shape, dt, lambda ix: cast(f(ix), dt))
    return SArr(b, [[Axis(j, 0, 1, n)] for j, n in enumerate(shape)], {})


F8 = np.dtype(np.float64)
I8 = np.dtype(np.int64)
B1 = np.dtype(np.bool_)


def full(shape, v, dtype):
    return build(shape, dtype, lambda ix: v)


def empty(shape, dtype):
    """Uninitialised memory: an arbitrary function of the index."""
    dt = np.dtype(dtype)
    name = T.fresh_name("uninit")

    def mk(tag, base):
        def g(ix):
            sorts = [T.I] * len(ix)
            args = [Bd.T_int(i) for i in ix]
            if base.kind == "f":
                return SReal(T.fn(name + tag, *sorts, T.R)(*args))
            if base.kind in "iu":
                return SInt(T.fn(name + tag, *sorts, T.I)(*args), base)
            return SBool(T.fn(name + tag, *sorts, T.B)(*args))
        return g
    if dt.kind == "c":
        r, i = mk("r", F8), mk("i", F8)
        return build(shape, dt, lambda ix: SComplex(r(ix), i(ix)))
    if dt.names is not None:
        base = uniform(dt)
        fs = [mk(n, base) for n in dt.names]
        return build(shape, dt, lambda ix: SStruct(
            tuple(dt.names), [g(ix) for g in fs], dt))
    g = mk("", dt)
    return build(shape, dt, g)


def from_np(a):
    """A concrete numpy array as a symbolic one."""
    a = np.asarray(a)
    if a.size > 4096:
        raise Unsupported("large concrete array")
    dt = a.dtype
    if dt.kind in "SUOM":
        raise Unsupported(f"array of {dt}")
    if dt.names is not None:
        names = tuple(dt.names)
        return build(a.shape, dt, lambda ix: SStruct(
            names, [T_scalar(a[ix][n]) for n in names], dt))

    def f(ix):
        if all(isinstance(i, int) for i in ix):
            return T_scalar(a[tuple(ix)])
        out = None
        for jx in np.ndindex(*a.shape):
            v = T_scalar(a[jx])
            c = b_and(*[i_eq(i, j) for i, j in zip(ix, jx)])
            out = v if out is None else T.ite(c, v, out)
        return out
    return build(a.shape, dt, f)


def T_scalar(v):
    if T.is_sym(v) or type(v) is SStruct:
        return v
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return T.SInt(v)
    if isinstance(v, float):
        return T.to_real(v)
    if isinstance(v, complex):
        return T.to_complex(v)
    return v


def is_arr(x):
    return type(x) is SArr


def has_sym(x):
    return type(x) is SArr or T.is_sym(x) or type(x) is SStruct
