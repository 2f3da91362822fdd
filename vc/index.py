"""Indexing of symbolic arrays: views, selections, gathers and assignments."""
from __future__ import annotations

import numpy as np
import z3

from . import arrays as A
from . import binders as Bd
from . import terms as T
from .arrays import Axis, SArr, as_int
from .terms import (SBool, SInt, SStruct, Unsupported, b_and, b_not, b_or,
                    ctx, i_add, i_eq, i_le, i_lt, i_mul, i_sub)


def coerce(x):
    """SArr of an array-like (containers through __array__)."""
    from . import ops
    return ops.asarray(x)


def is_array_like(k):
    return type(k) is SArr or isinstance(k, np.ndarray) or (
        hasattr(type(k), "__array__") and not isinstance(k, np.generic)
        and not isinstance(k, T.Sym) and type(k) not in (
            SInt, SBool, T.SReal, T.SComplex))


def is_int(k):
    return type(k) is SInt or (isinstance(k, (int, np.integer)) and
                               not isinstance(k, (bool, np.bool_)))


def parse(arr, key):
    """Key as a list of ("int", i) ("slice", s) ("new",) ("mask", a)
    ("idx", a) with the ellipsis expanded."""
    if type(key) is tuple:
        ks = list(key)
    else:
        ks = [key]
    out = []
    for k in ks:
        if k is Ellipsis:
            out.append(("ell",))
        elif k is None:
            out.append(("new",))
        elif isinstance(k, slice):
            out.append(("slice", k))
        elif type(k) is SArr and not k.dims and k.dtype.kind in "iu":
            out.append(("int", as_int(k.item())))
        elif is_int(k):
            out.append(("int", as_int(k)))
        elif type(k) is SBool or isinstance(k, (bool, np.bool_)):
            raise Unsupported("scalar boolean index")
        elif isinstance(k, (list, tuple)) or is_array_like(k):
            if isinstance(k, (list, tuple)) and len(k) == 0:
                a = A.from_np(np.zeros(0, dtype=np.int64))
            else:
                a = coerce(k)
            if a.dtype == np.bool_:
                out.append(("mask", a))
            elif a.dtype.kind in "iu":
                out.append(("idx", a))
            else:
                raise IndexError("arrays used as indices must be of integer "
                                 "(or boolean) type")
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                             "numpy.newaxis (`None`) and integer or boolean "
                             f"arrays are valid indices: {type(k)}")
    used = sum(0 if o[0] in ("new", "ell") else
               (o[1].ndim if o[0] == "mask" else 1) for o in out)
    if used > arr.ndim:
        raise IndexError(f"too many indices for array: array is {arr.ndim}-"
                         f"dimensional, but {used} were indexed")
    fill = arr.ndim - used
    ells = [j for j, o in enumerate(out) if o[0] == "ell"]
    full = [("slice", slice(None))] * fill
    if ells:
        j = ells[0]
        out = out[:j] + full + out[j + 1:]
    else:
        out = out + full
    return out


def bound_int(i, n):
    """Index i of an axis of length n with wrap-around and bounds check."""
    c = ctx()
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis with size "
                             f"{n}")
        return i + n if i < 0 else i
    if isinstance(i, int):
        neg = i < 0
    else:
        neg = c.decide(i_lt(i, 0))
    if neg:
        i = i_add(i, n)
        if not c.decide(i_le(0, i)):
            raise IndexError("index out of bounds")
    elif not c.decide(i_lt(i, n)):
        raise IndexError("index out of bounds")
    return i


def slice_axis(s, n):
    """(start, step, length) of a slice over an axis of length n."""
    c = ctx()
    step = 1 if s.step is None else as_int(s.step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    lo = None if s.start is None else as_int(s.start)
    hi = None if s.stop is None else as_int(s.stop)
    if isinstance(n, int) and (lo is None or isinstance(lo, int)) and (
            hi is None or isinstance(hi, int)):
        a, b, st = slice(lo, hi, step).indices(n)
        return a, st, len(range(a, b, st))
    if step == -1 and lo is None and hi is None:
        return i_sub(n, 1), -1, n
    if step != 1:
        raise Unsupported("strided slice of a symbolic axis")

    def clip(i, default):
        if i is None:
            return default
        if isinstance(i, int):
            neg = i < 0
        else:
            neg = c.decide(i_lt(i, 0))
        if neg:
            i = i_add(i, n)
            return i if c.decide(i_le(0, i)) else 0
        return i if c.decide(i_le(i, n)) else n
    a, b = clip(lo, 0), clip(hi, n)
    m = i_sub(b, a)
    if isinstance(m, int):
        return a, 1, max(m, 0)
    if (isinstance(a, int) and a == 0) or c.decide(i_le(0, m)):
        return a, 1, m
    return a, 1, 0


def basic(arr, parts):
    """View for integer / slice / newaxis parts only."""
    dims, fixed = [], dict(arr.fixed)
    src = iter(arr.dims)
    empty, zero_at = False, []
    for o in parts:
        if o[0] == "new":
            dims.append([])
            continue
        d = next(src)
        n = A.prod([a.n for a in d])
        if o[0] == "int":
            i = bound_int(o[1], n)
            fix_axis(d, i, fixed)
        elif o[0] == "slice":
            s = o[1]
            if s.start is None and s.stop is None and s.step in (None, 1):
                dims.append(d)
                continue
            st, sp, m = slice_axis(s, n)
            if len(d) == 0:
                if isinstance(m, int) and m == 1:
                    dims.append(d)
                    continue
                if m != 0:
                    raise Unsupported("slice of a length-one axis")
                empty = True
                dims.append([])
                zero_at.append(len(dims) - 1)
                continue
            if len(d) > 1:
                raise Unsupported("slice of a merged axis")
            a = d[0]
            dims.append([Axis(a.ax, i_add(a.start, i_mul(a.step, st)),
                              a.step * sp, m)])
        else:
            dims.append(d)          # handled by the caller
    if empty:
        v = SArr(arr.buf, dims, fixed, arr.rec)
        shape = [0 if j in zero_at else n for j, n in enumerate(v.ishape)]
        return A.build(shape, v.dtype, never)
    return SArr(arr.buf, dims, fixed, arr.rec)


def never(ix):
    raise AssertionError("cell of an empty array")


def fix_axis(comps, i, fixed):
    m = len(comps)
    if m == 0:
        return
    parts = []
    rem = i
    for a in reversed(comps[1:]):
        if not isinstance(a.n, int):
            raise Unsupported("index into a merged axis")
        if isinstance(rem, int):
            parts.append(rem % a.n)
            rem = rem // a.n
        else:
            parts.append(T.int_norm(rem % a.n))
            rem = T.int_norm(rem / a.n)
    parts.append(rem)
    parts.reverse()
    for a, p in zip(comps, parts):
        q = p if a.step == 1 else i_mul(p, a.step)
        fixed[a.ax] = i_add(q, a.start)


def fields(arr, key):
    if arr.rec is None or arr.rec[0] != "s":
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                         "numpy.newaxis (`None`) and integer or boolean "
                         "arrays are valid indices")
    _, names, ax, offs, dt = arr.rec
    if isinstance(key, str):
        if key not in names:
            raise ValueError(f"no field of name {key}")
        return arr.field(key)
    for k in key:
        if k not in names:
            raise KeyError(k)
    nd = np.dtype([(k, dt.fields[k][0]) for k in key])
    sub = ("s", tuple(key), ax, tuple(offs[names.index(k)] for k in key), nd)
    return SArr(arr.buf, arr.dims, arr.fixed, sub)


def getitem(arr, key):
    if isinstance(key, str) or (isinstance(key, list) and key and all(
            isinstance(k, str) for k in key)):
        return fields(arr, key)
    parts = parse(arr, key)
    adv = [o for o in parts if o[0] in ("mask", "idx")]
    if not adv:
        v = basic(arr, parts)
        if not v.dims and not (type(key) is tuple and Ellipsis in
                               [k for k in key if k is Ellipsis]):
            return v.get(())
        return v
    v, axis, advs = prepare(arr, parts)
    if len(advs) == 1 and advs[0][0] == "mask":
        return take_mask(v, axis, advs[0][1])
    if all(o[0] == "idx" for o in advs):
        return take_idx(v, axis, [o[1] for o in advs])
    raise Unsupported("mixed advanced index")


def prepare(arr, parts):
    """Apply the basic parts; the advanced ones must be adjacent.  Returns
    (view, first advanced axis of the view, advanced parts)."""
    b = []
    axis, advs, last = None, [], None
    pos = 0
    for o in parts:
        if o[0] in ("mask", "idx"):
            if axis is None:
                axis = pos
            elif last != pos:
                raise Unsupported("separated advanced indices")
            advs.append(o)
            k = o[1].ndim if o[0] == "mask" else 1
            for _ in range(k):
                b.append(("slice", slice(None)))
            pos += k
            last = pos
        else:
            b.append(o)
            if o[0] == "int":
                if advs or any(p[0] in ("mask", "idx") for p in parts):
                    # an integer joins the advanced indices in numpy; the
                    # result is the same when everything else is sliced
                    pass
            else:
                pos += 1
    return basic(arr, b), axis, advs


def selection(mask, n):
    m = mask.ishape[0]
    if A.same_int(m, n) is not True:
        if not ctx().decide(i_eq(m, n)):
            raise IndexError("boolean index did not match indexed array "
                             f"along axis; size of axis is {n} but size of "
                             f"corresponding boolean axis is {m}")
    f = mask.freeze()
    return Bd.Selection(n, lambda k: T.bool_e(f((k,))))


def take_mask(v, axis, mask):
    if mask.ndim != 1:
        if mask.ndim == v.ndim and axis == 0 and all(
                isinstance(x, int) for x in v.ishape):
            # flattened selection of a small array
            sh = v.ishape
            flat = v.copy().reshape(-1)
            return take_mask(flat, 0, mask.copy().reshape(-1))
        raise Unsupported("multi-dimensional mask")
    shape = v.ishape
    sel = selection(mask, shape[axis])
    f = v.freeze()

    def g(ix):
        ix = list(ix)
        ix[axis] = sel.sel(ix[axis])
        return f(tuple(ix))
    sh = list(shape)
    sh[axis] = sel.count
    return A.build(sh, v.dtype, g)


def check_idx(f, shape, n):
    """All entries of an index array within bounds; returns a reader that
    wraps negatives."""
    c = ctx()
    if all(isinstance(s, int) for s in shape):
        vals = {}
        for ix in np.ndindex(*shape):
            vals[ix] = bound_int(as_int(f(ix)), n)

        def rd(ix):
            if all(isinstance(i, int) for i in ix):
                return vals[tuple(ix)]
            return as_int(f(ix))
        return rd
    m = shape[0] if len(shape) == 1 else None
    if m is None:
        raise Unsupported("multi-dimensional symbolic index array")
    # entries of a selection are in range by construction
    k = Bd.index_var("j")
    e = as_int(f((k,)))
    mk = c.mark()
    try:
        c.assume(z3.And(k >= 0, k < Bd.T_int(m)))
        c.assume_facts = getattr(c, "assume_facts", None)
        from . import solve
        ok = not solve.feasible_full(c.assumptions, z3.Not(z3.And(
            Bd.T_int(e) >= 0, Bd.T_int(e) < Bd.T_int(n))))
    finally:
        c.reset(mk)
    if not ok:
        bad = Bd.any_term(m, lambda j: (lambda q: b_or(
            i_lt(q, 0), b_not(i_lt(q, n))))(as_int(f((j,)))))
        if c.decide(bad):
            neg = Bd.any_term(m, lambda j: (lambda q: b_or(
                i_lt(q, T.i_mul(-1, n)), b_not(i_lt(q, n))))(
                    as_int(f((j,)))))
            if c.decide(neg):
                raise IndexError("index out of bounds")

            def rd(ix):
                q = as_int(f(ix))
                return T.int_norm(T.t_ite(T.b_z3(i_lt(q, 0)), i_add(q, n),
                                          q))
            return rd
    return lambda ix: as_int(f(ix))


def take_idx(v, axis, idxs):
    shape = v.ishape
    from . import ops
    bs = ops.broadcast_shapes([a.ishape for a in idxs])
    rds = []
    for j, a in enumerate(idxs):
        g = ops.reader(a, bs)
        rds.append(check_idx(g, bs, shape[axis + j]))
    f = v.freeze()
    k = len(bs)

    def g(ix):
        ix = tuple(ix)
        mid = tuple(r(ix[axis:axis + k]) for r in rds)
        return f(ix[:axis] + mid + ix[axis + k:])
    sh = shape[:axis] + tuple(bs) + shape[axis + len(idxs):]
    return A.build(sh, v.dtype, g)


# -------------------------------------------------------------- assignment
def setitem(arr, key, val):
    from . import ops
    if isinstance(key, str):
        arr = fields(arr, key)
        key = Ellipsis
    elif isinstance(key, list) and key and all(isinstance(k, str)
                                               for k in key):
        raise Unsupported("assignment to several fields")
    if isinstance(val, (list, tuple)) or (is_array_like(val) and
                                          type(val) is not SArr):
        val = coerce(val)
    parts = parse(arr, key)
    adv = [o for o in parts if o[0] in ("mask", "idx")]
    if not adv:
        store(basic(arr, parts), val)
        return
    v, axis, advs = prepare(arr, parts)
    if len(advs) == 1 and advs[0][0] == "mask":
        store_mask(v, axis, advs[0][1], val)
    elif all(o[0] == "idx" for o in advs):
        store_idx(v, axis, [o[1] for o in advs], val)
    else:
        raise Unsupported("mixed advanced assignment")


def comp_vars(view):
    """Bound variables of a view: (bound, guard, view index, buffer loc)."""
    bound, guard, vidx = [], [], []
    loc = [None] * len(view.buf.dims)
    for a, x in view.fixed.items():
        loc[a] = x
    for comps in view.dims:
        tot = 0
        for a in comps:
            if isinstance(a.n, int) and a.n == 1:
                v = 0
            else:
                v = Bd.index_var("w")
                bound.append(v)
                whole = a.step == 1 and isinstance(a.start, int) and \
                    a.start == 0 and A.same_int(
                        a.n, view.buf.dims[a.ax]) is True
                if not whole:
                    guard += [i_le(0, v), i_lt(v, a.n)]
            loc[a.ax] = i_add(i_mul(v, a.step), a.start)
            tot = i_add(i_mul(tot, a.n), v)
        vidx.append(tot)
    return bound, b_and(*guard), tuple(vidx), loc


def emit(view, bound, guard, loc, v):
    """Write scalar v (a record when the view is of records)."""
    if view.rec is None:
        view.buf.write(A.Write(bound, guard, tuple(loc), v))
        return
    if view.rec[0] == "c":
        c = T.to_complex(v)
        for j, part in enumerate((c.re, c.im)):
            l2 = list(loc)
            l2[view.rec[1]] = i_add(view.rec[2], j)
            view.buf.write(A.Write(bound, guard, tuple(l2), part))
        return
    _, names, ax, offs, dt = view.rec
    for nm, o, j in zip(names, offs, range(len(names))):
        l2 = list(loc)
        l2[ax] = o
        x = v.vals[j] if type(v) is SStruct else (
            v[j] if isinstance(v, tuple) else v)
        view.buf.write(A.Write(bound, guard, tuple(l2), x))


def value_reader(val, shape):
    """Function of the region index giving the assigned value."""
    from . import ops
    if type(val) is not SArr:
        return lambda ix: val
    vs = val.ishape
    if len(vs) > len(shape):
        extra = vs[:len(vs) - len(shape)]
        if not all(A.same_int(x, 1) is True for x in extra):
            raise ValueError("could not broadcast input array into shape")
        val = val[(0,) * len(extra)]
        if type(val) is not SArr:
            return lambda ix: val
    return ops.reader(val, shape, strict=True)


def store(view, val):
    shape = view.ishape
    rd = value_reader(val, shape)
    if all(isinstance(x, int) for x in shape) and A.prod(shape) <= A.SMALL:
        vals = [(ix, rd(ix)) for ix in np.ndindex(*shape)]
        for ix, v in vals:
            loc = view.locate(ix)
            emit(view, [], True, loc, v)
        return
    bound, guard, vidx, loc = comp_vars(view)
    emit(view, bound, guard, loc, rd(vidx))


def store_mask(view, axis, mask, val):
    shape = view.ishape
    nm = mask.ndim
    if nm != 1:
        if type(val) is SArr and val.dims:
            if not all(isinstance(x, int) for x in shape):
                raise Unsupported("array assignment through a matrix mask")
            pos = 0
            mf = mask.freeze()
            vf = val.freeze()
            for ix in np.ndindex(*shape):
                b = T.bool_e(mf(ix))
                if not isinstance(b, bool):
                    raise Unsupported("symbolic matrix mask")
                if b:
                    emit(view, [], True, view.locate(ix), vf((pos,)))
                    pos += 1
            return
        mf = mask.freeze()
        v0 = val.item() if type(val) is SArr else val
        bound, guard, vidx, loc = comp_vars(view)
        g = T.bool_e(mf(vidx[axis:axis + nm]))
        emit(view, bound, b_and(guard, g), loc, v0)
        return
    sel = selection(mask, shape[axis])
    sh = list(shape)
    sh[axis] = sel.count
    rd = value_reader(val, tuple(sh))
    mf = mask.freeze()
    if all(isinstance(x, int) for x in shape):
        out = []
        for ix in np.ndindex(*shape):
            g = T.bool_e(mf((ix[axis],)))
            if not isinstance(g, bool):
                g = ctx().fold(g)
            if g is False:
                continue
            jx = list(ix)
            jx[axis] = sel.rank(ix[axis])
            out.append((view.locate(ix), g, rd(tuple(jx))))
        for loc, g, v in out:
            emit(view, [], g, loc, v)
        return
    bound, guard, vidx, loc = comp_vars(view)
    g = T.bool_e(mf((vidx[axis],)))
    jx = list(vidx)
    jx[axis] = sel.rank(vidx[axis])
    emit(view, bound, b_and(guard, g), loc, rd(tuple(jx)))


def store_idx(view, axis, idxs, val):
    from . import ops
    shape = view.ishape
    bs = ops.broadcast_shapes([a.ishape for a in idxs])
    rds = [check_idx(ops.reader(a, bs), bs, shape[axis + j])
           for j, a in enumerate(idxs)]
    region = shape[:axis] + tuple(bs) + shape[axis + len(idxs):]
    rd = value_reader(val, region)
    k = len(bs)
    if all(isinstance(x, int) for x in region):
        out = []
        for ix in np.ndindex(*region):
            mid = tuple(r(ix[axis:axis + k]) for r in rds)
            out.append((view.locate(ix[:axis] + mid + ix[axis + k:]),
                        rd(ix)))
        for loc, v in out:
            emit(view, [], True, loc, v)
        return
    if len(idxs) == 1 and k == 1 and (type(val) is not SArr or
                                      not val.dims or
                                      A.same_int(A.prod(val.ishape), 1)):
        v0 = val.item() if type(val) is SArr else val
        bound, guard, vidx, loc = comp_vars(view)
        cell = vidx[axis]
        g = Bd.any_term(bs[0], lambda j: i_eq(rds[0]((j,)), cell))
        emit(view, bound, b_and(guard, g), loc, v0)
        return
    raise Unsupported("assignment through an integer array")
