"""The loop rule: one arbitrary iteration is executed on every path of the
body; accumulators become sums, array writes become quantified writes, and
independence of the iterations is checked."""
from __future__ import annotations

import builtins
import itertools

import numpy as np
import z3

from . import arrays as A
from . import binders as Bd
from . import norm
from . import terms as T
from .arrays import SArr, as_int
from .terms import (SBool, SInt, SReal, Unsupported, b_and, b_not, b_or, ctx,
                    i_add, i_eq, i_le, i_lt, i_sub)

MISSING = object()


class Poison:
    """A loop temporary without a known value."""
    __hash__ = None

    def _no(self, *a, **k):
        raise Unsupported("value carried across iterations")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __getitem__ = __setitem__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = _no
    __call__ = __iter__ = __len__ = __neg__ = __abs__ = __float__ = _no

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("value carried across iterations")


POISON = Poison()


# ------------------------------------------------------------ iterables
class SymIter:
    """A sequence of symbolic length n with item(k)."""
    parallel = False

    def __init__(self, n, item, parallel=False):
        self.n, self.item, self.parallel = n, item, parallel

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def __next__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def __len__(self):
        raise Unsupported("native length of a symbolic sequence")


class SList(SymIter):
    """A list or tuple of symbolic length n."""
    __hash__ = None

    def __init__(self, n, item, kind=list):
        super().__init__(n, item)
        self.kind = kind

    @property
    def __class__(self):
        return self.kind

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("a slice of a symbolic sequence")
        e = as_int(k)
        if ctx().decide(i_lt(e, 0)):
            e = i_add(e, self.n)
        if ctx().decide(b_or(i_lt(e, 0), i_le(self.n, e))):
            raise IndexError("list index out of range")
        return self.item(e)

    def __bool__(self):
        return ctx().decide(i_lt(0, self.n))

    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic sequence")
    __eq__ = __ne__ = __lt__ = __add__ = __radd__ = __mul__ = __rmul__ = _no
    __contains__ = __setitem__ = __delitem__ = append = extend = _no
    pop = insert = remove = sort = reverse = index = count = _no


def materialise(s, kind):
    """The list of the items of s: evaluated for an arbitrary index, where
    they may neither raise nor write."""
    c = ctx()
    k = Bd.index_var("a")
    outer, mk = c.explorer, c.mark()
    ex = T.Explorer()
    c.explorer = ex
    warned, wrote = len(c.warned), A.WRITES[0]
    try:
        while ex.next_prefix():
            c.reset(mk)
            c.assume(z3.And(k >= 0, k < Bd.T_int(s.n)))
            try:
                s.item(k)
            except T.Infeasible:
                continue
            except (Unsupported, T.PathEnd):
                raise
            except Exception as e:
                raise Unsupported("an item of a symbolic sequence raises "
                                  f"{type(e).__name__}: {e}")
            if len(c.warned) != warned or A.WRITES[0] != wrote:
                raise Unsupported("effects in a symbolic sequence")
    finally:
        c.explorer = outer
        c.reset(mk)
    return SList(s.n, s.item, kind)


def elem(a, k):
    fixed = dict(a.fixed)
    from . import index
    index.fix_axis(a.dims[0], k, fixed)
    v = SArr(a.buf, a.dims[1:], fixed, a.rec)
    return v.get(()) if not v.dims else v


def as_symiter(x):
    if issubclass(type(x), SymIter):
        return x
    from . import ops
    if ops.is_container(x) and hasattr(type(x), "__iter__"):
        r = type(x).__iter__(x)
        return r if issubclass(type(r), SymIter) else None
    if type(x) is SArr and x.dims and not isinstance(x.ishape[0], int):
        return SymIter(x.ishape[0], lambda k: elem(x, k))
    return None


def range_(*args):
    if not any(type(a) is SInt for a in args):
        return builtins.range(*args)
    e = [as_int(a) for a in args]
    lo, hi = (0, e[0]) if len(e) == 1 else (e[0], e[1])
    step = e[2] if len(e) == 3 else 1
    if step != 1:
        raise Unsupported("strided range")
    n = i_sub(hi, lo)
    if isinstance(n, int):
        n0 = max(n, 0)
        if isinstance(lo, int):
            return builtins.range(lo, lo + n0)
        return [T.mkint(i_add(lo, j)) for j in builtins.range(n0)]
    if not ctx().decide(i_le(0, n)):
        return builtins.range(0)
    return SymIter(n, lambda k: T.mkint(i_add(lo, k)))


def prange_(*args):
    r = range_(*args)
    if isinstance(r, SymIter):
        r.parallel = True
    return r


def hooked(f):
    """Built-in types given as functions accept symbolic values."""
    from . import load
    try:
        return load.BUILTINS.get(f, f)
    except TypeError:
        return f


def map_(f, *xs):
    f = hooked(f)
    ss = [as_symiter(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.map(f, *xs)
    z = zip_(*[x if s is None else s for s, x in builtins.zip(ss, xs)])
    return SymIter(z.n, lambda k: f(*z.item(k)))


def starmap_(f, xs):
    f = hooked(f)
    s = as_symiter(xs)
    if s is None:
        return itertools.starmap(f, xs)
    return SymIter(s.n, lambda k: f(*s.item(k)))


def gen(x):
    """What a generator ending in ``yield from x`` returns."""
    s = as_symiter(x)
    return builtins.iter(x) if s is None else s


def enumerate_(x, start=0):
    s = as_symiter(x)
    if s is None:
        return builtins.enumerate(x, start)
    return SymIter(s.n, lambda k: (T.mkint(i_add(as_int(start), k)),
                                   s.item(k)))


def zip_(*xs, strict=False):
    ss = [as_symiter(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs, strict=strict)
    n = None
    for j, s in builtins.enumerate(ss):
        if s is None:
            if type(xs[j]) is itertools.repeat and "," not in repr(xs[j]):
                v = next(xs[j])
                ss[j] = SymIter(None, lambda k, v=v: v)
                continue
            if hasattr(xs[j], "__next__") or not hasattr(xs[j], "__len__"):
                raise Unsupported("zip of a symbolic and a lazy sequence")
            raise Unsupported("zip of symbolic and concrete sequences")
        if n is None:
            n = s.n
        elif A.same_int(n, s.n) is not True:
            if ctx().decide(i_eq(n, s.n)):
                continue
            n = n if ctx().decide(i_lt(n, s.n)) else s.n
    return SymIter(n, lambda k: tuple(s.item(k) for s in ss))


# ------------------------------------------------------------------ loops
class Concrete:
    symbolic = False

    def __init__(self, it):
        self.it = it


def loop(it, names):
    s = as_symiter(it)
    if s is None:
        return Concrete(it)
    rule = getattr(ctx(), "loop_rule", None)
    if rule is not None and not ctx().loops and \
            Bd.has_var(Bd.T_int(s.n), rule.trip):
        return InvLoop(s, names, rule)
    return Loop(s, names)


class BreakLoop(Exception):
    pass


class InvLoop:
    """A loop cut at an invariant: the state is replaced by an arbitrary one
    satisfying it; then either an iteration is executed, after which the
    invariant is an obligation, or the loop is left."""
    symbolic = True

    def __init__(self, s, names, rule):
        self.s, self.names, self.rule, self.n = s, names, rule, s.n
        self.broken = False

    def begin(self, locs):
        c = ctx()
        self.env = {n: locs.get(n, MISSING) for n in self.names}
        self.rule.entry = dict(self.env)
        self.rule.prove(self.env, "holds at entry")
        self.env = self.rule.havoc(self.env)
        self.k = T.fresh_int("iteration")
        self.todo = c.choose(2) == 1
        if self.todo:
            c.assume(z3.And(self.k >= 0, self.k < Bd.T_int(self.n)))
        self.ended = None

    def more(self):
        r, self.todo = self.todo, False
        return r

    def havoc(self):
        return tuple(POISON if self.env[n] is MISSING else self.env[n]
                     for n in self.names)

    def item(self):
        return self.s.item(self.k)

    def stop(self, what, locs):
        if what != "break":
            raise Unsupported(what + " in a loop cut at an invariant")
        self.ended = {n: locs.get(n, MISSING) for n in self.names}
        self.broken = True
        raise BreakLoop

    def record(self, locs):
        self.rule.prove({n: locs.get(n, MISSING) for n in self.names},
                        "is preserved")
        raise T.PathEnd

    def failed(self, e):
        if not isinstance(e, BreakLoop):
            raise e

    def finish(self):
        env = self.env if self.ended is None else self.ended
        return tuple(POISON if env[n] is MISSING else env[n]
                     for n in self.names)


def open_conds(c, mk):
    return b_and(*c.path[mk:])


class Loop:
    symbolic = True

    def __init__(self, s, names):
        self.s, self.names = s, names
        self.n = s.n

    def begin(self, locs):
        c = ctx()
        self.init = {n: locs.get(n, MISSING) for n in self.names}
        self.k = Bd.index_var("k")
        self.outer = c.explorer
        self.ex = T.Explorer()
        self.mark = c.mark()
        self.pmark = len(c.path)
        self.paths = []
        self.saved = {}
        self.depth = len(c.loops)
        self.warned = len(c.warned)
        self.reads = []
        c.loops.append(self)
        self.start = {}
        for n in self.names:
            self.start[n] = self.fresh(n, self.init[n])
        c.explorer = self.ex

    def fresh(self, name, v):
        if v is MISSING or isinstance(v, Poison):
            return POISON
        if type(v) is SReal or isinstance(v, (float, np.floating)):
            x = T.fresh_real("acc_" + name)
            py = v.py if type(v) is SReal else not isinstance(
                v, np.floating)
            return SReal(x, py=py)
        if type(v) is SBool or isinstance(v, (bool, np.bool_)):
            return SBool(T.fresh_bool("acc_" + name))
        if type(v) is SInt or isinstance(v, (int, np.integer)):
            return SInt(T.fresh_int("acc_" + name))
        if type(v) is T.SComplex or isinstance(v, complex):
            return T.SComplex(SReal(T.fresh_real("accr")),
                              SReal(T.fresh_real("acci")))
        return POISON

    def more(self):
        c = ctx()
        if not self.ex.next_prefix():
            return False
        c.reset(self.mark)
        self.restore()
        c.assume(z3.And(self.k >= 0, self.k < Bd.T_int(self.n)))
        self.pmark = len(c.path)
        self.writes = []
        return True

    def restore(self):
        for b, st in self.saved.values():
            b.restore(st)

    def havoc(self):
        return tuple(self.start[n] for n in self.names)

    def item(self):
        return self.s.item(self.k)

    broken = False

    def stop(self, what, locs=None):
        raise Unsupported(what + " in a loop over a symbolic sequence")

    def record(self, locs):
        c = ctx()
        cond = open_conds(c, self.pmark)
        ends = {n: locs.get(n, MISSING) for n in self.names}
        self.paths.append((cond, ends, self.writes))
        if len(c.warned) != self.warned:
            raise Unsupported("a warning inside a loop")

    def failed(self, e):
        c = ctx()
        if isinstance(e, T.Infeasible):
            return
        if isinstance(e, (Unsupported, T.PathEnd)):
            raise e
        c.prove(f"an iteration raises {type(e).__name__}: {e}", False,
                kind="safety")

    # -- logs
    def log_read(self, buf, idx):
        if buf.owner <= self.depth:
            c = ctx()
            self.reads.append((buf, tuple(idx), open_conds(c, self.pmark)))

    def log_view(self, view):
        if view.buf.owner <= self.depth:
            from . import index
            bound, guard, vidx, loc = index.comp_vars(view)
            g = [guard, open_conds(ctx(), self.pmark)]
            for comps in view.dims:
                for a in comps:
                    e = loc[a.ax]
            for v in bound:
                g.append(v >= 0)
            for comps in view.dims:
                for a in comps:
                    pass
            self.reads.append((view.buf, tuple(loc), b_and(*g)))

    def log_write(self, buf, w):
        if buf.owner <= self.depth:
            if buf.id not in self.saved:
                self.saved[buf.id] = (buf, buf.save())
            self.writes.append((buf, w))

    # -- end of the loop
    def finish(self):
        c = ctx()
        self.restore()
        c.reset(self.mark)
        c.explorer = self.outer
        c.loops.pop()
        if not self.paths:
            # no feasible iteration
            return tuple(POISON if self.init[n] is MISSING else self.init[n]
                         for n in self.names)
        rng = b_and(i_le(0, self.k), i_lt(self.k, self.n))
        self.check_independence(rng)
        pairs = []              # accumulator at the start of iteration k
        final = {}
        for n in self.names:
            final[n] = self.final(n, pairs)
        k = self.k
        for cond, ends, writes in self.paths:
            for buf, w in writes:
                g = b_and(rng, cond, w.guard)
                val = A.subst(w.val, pairs) if pairs else w.val
                if pairs and not isinstance(g, bool):
                    g = z3.substitute(g, *pairs)
                idx = tuple(i if isinstance(i, int) or not pairs else
                            z3.substitute(i, *pairs) for i in w.idx)
                buf.write(A.Write([k] + list(w.bound), g, idx, val))
        # reads seen by enclosing loops
        if c.loops:
            up = c.loops[-1]
            for buf, idx, g in self.reads:
                if buf.owner <= up.depth:
                    up.reads.append((buf, idx, b_and(rng, g)))
        return tuple(final[n] for n in self.names)

    def final(self, name, pairs):
        init, start = self.init[name], self.start[name]
        vals = [(cond, ends[name]) for cond, ends, _ in self.paths]
        if all(v is start for _, v in vals):
            return POISON if init is MISSING else init
        if any(v is MISSING or isinstance(v, Poison) for _, v in vals):
            return POISON
        if not all(T.is_num(v) for _, v in vals):
            return POISON
        n, k = self.n, self.k
        if isinstance(start, Poison):
            # a temporary: its last value
            v = merge(vals)
            if v is POISON:
                return POISON
            return LastValue.make(v, n, k, init)
        t = type(start)
        if t is T.SComplex:
            raise Unsupported("complex accumulator")
        acc = start.v if t is SReal else start.e
        dep = any(depends(v, acc) or (not isinstance(cd, bool) and
                                      Bd.has_var(cd, acc))
                  for cd, v in vals)
        if not dep:
            v = merge(vals)
            return LastValue.make(v, n, k, init)
        if any(not isinstance(cd, bool) and Bd.has_var(cd, acc)
               for cd, _ in vals):
            raise Unsupported("a branch on an accumulator")
        if t is SReal:
            gs = []
            for cd, v in vals:
                v = T.to_real(v)
                d = norm.canon(v.v - acc)
                if Bd.has_var(d, acc) or any(
                        not isinstance(f, bool) and Bd.has_var(f, acc)
                        for f in (v.nan, v.pinf, v.ninf)):
                    raise Unsupported("not an additive accumulator")
                gs.append((cd, SReal(d, v.nan, v.pinf, v.ninf)))
            g = merge(gs)
            from . import ops
            s = ops.sum_fold(n, lambda j: A.subst(g, [(k, Bd.T_int(j))]))
            pairs.append((acc, T.to_real(init).v + ops.sum_fold(
                k, lambda j: A.subst(g, [(k, Bd.T_int(j))])).v))
            r = T.to_real(init) + s
            return SReal(r.v, r.nan, r.pinf, r.ninf, start.py)
        if t is SInt:
            gs = []
            for cd, v in vals:
                d = T.int_norm(Bd.T_int(T.int_e(v)) - acc)
                if not isinstance(d, int) and Bd.has_var(d, acc):
                    raise Unsupported("not an additive accumulator")
                gs.append((cd, T.SInt(Bd.T_int(d))))
            g = merge(gs)
            if isinstance(g, int):
                g = T.SInt(g)
            from . import ops
            s = ops.sum_value(n, k, g)
            part = Bd.index_var("q")
            sp = ops.sum_value(k, part, A.subst(g, [(k, part)]))
            pairs.append((acc, Bd.T_int(T.i_add(T.int_e(init),
                                                T.int_e(sp)))))
            return init + s
        # Boolean accumulators
        v = merge(vals)
        e = T.bool_e(v)
        if isinstance(e, bool):
            return LastValue.make(v, n, k, init)
        f0 = norm.canon(z3.substitute(e, (acc, z3.BoolVal(False))))
        f1 = norm.canon(z3.substitute(e, (acc, z3.BoolVal(True))))
        if z3.is_true(f1):
            r = Bd.any_term(n, lambda j: from_z3(z3.substitute(
                f0, (k, Bd.T_int(j)))))
            return T.mkbool(b_or(T.bool_e(init), r))
        if z3.is_false(f0):
            r = Bd.all_term(n, lambda j: from_z3(z3.substitute(
                f1, (k, Bd.T_int(j)))))
            return T.mkbool(b_and(T.bool_e(init), r))
        raise Unsupported("not a monotone Boolean accumulator")

    def check_independence(self, rng):
        c = ctx()
        written = {}
        for cond, _, writes in self.paths:
            for buf, w in writes:
                written.setdefault(buf.id, []).append((cond, w))
        k2 = Bd.index_var("k")
        sub = (self.k, k2)
        rng2 = z3.substitute(T.b_z3(rng), sub)
        for bid, ws in written.items():
            for buf, idx, g in self.reads:
                if buf.id != bid:
                    continue
                for cond, w in ws:
                    self.no_clash(idx, b_and(rng, g), w, b_and(
                        rng2, sb(cond, sub)), sub, k2, "read")
            for i, (c1, w1) in enumerate(ws):
                for c2, w2 in ws[i:]:
                    self.no_clash(w1.idx, b_and(rng, c1, w1.guard), w2,
                                  b_and(rng2, sb(c2, sub)), sub, k2,
                                  "write")

    def no_clash(self, idx, g1, w, g2, sub, k2, kind):
        c = ctx()
        ren = [(v, Bd.index_var("w")) for v in w.bound]
        eqs = []
        for a, e in zip(idx, w.idx):
            e2 = e if isinstance(e, int) else z3.substitute(
                e, sub, *ren)
            eqs.append(i_eq(a, e2))
        g = w.guard if isinstance(w.guard, bool) else z3.substitute(
            w.guard, sub, *ren)
        order = self.k != k2
        if kind == "read" and not self.s.parallel:
            order = k2 < self.k
        clash = b_and(g1, g2, g, order, *eqs)
        if clash is False:
            return
        if kind == "write" and not self.s.parallel and same_value():
            pass
        from . import solve
        if solve.feasible_full(c.assumptions, T.b_z3(clash)):
            if self.s.parallel:
                c.prove("parallel iterations touch different cells",
                        b_not(clash), kind="safety")
            else:
                raise Unsupported(f"iterations are not independent ({kind})")


def same_value():
    return False


def sb(e, sub):
    return e if isinstance(e, bool) else z3.substitute(e, sub)


def from_z3(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def depends(v, acc):
    if type(v) is SReal:
        return any(Bd.has_var(f, acc) for f in (v.v, v.nan, v.pinf, v.ninf)
                   if not isinstance(f, bool))
    if type(v) in (SInt, SBool):
        return Bd.has_var(v.e, acc)
    if type(v) is T.SComplex:
        return depends(v.re, acc) or depends(v.im, acc)
    return False


def merge(vals):
    """ite over the exclusive path conditions."""
    out = vals[-1][1]
    for cd, v in reversed(vals[:-1]):
        try:
            out = T.ite(T.b_z3(cd) if not isinstance(cd, bool) else cd, v,
                        out)
        except TypeError:
            return POISON
    return out


class LastValue:
    @staticmethod
    def make(v, n, k, init):
        if not T.is_sym(v):
            last = v
        else:
            last = A.subst(v, [(k, Bd.T_int(i_sub(n, 1)))])
        some = i_lt(0, n)
        if not isinstance(some, bool):
            q = ctx().quick(some)
            some = some if q is None else q
        if some is True:
            return last
        if init is MISSING or isinstance(init, Poison):
            return POISON if some is not True else last
        if not T.is_num(init):
            return POISON
        return T.ite(some, last, init)


# -------------------------------------------------------------- merging
def merged(thunk):
    """Value of a side-effect free computation over all its paths."""
    c = ctx()
    outer, mk = c.explorer, c.mark()
    ex = T.Explorer()
    res = []
    warned = len(c.warned)
    c.explorer = ex
    try:
        while ex.next_prefix():
            c.reset(mk)
            p0 = len(c.path)
            try:
                v = thunk()
            except T.Infeasible:
                continue
            res.append((open_conds(c, p0), v))
            if len(c.warned) != warned:
                raise Unsupported("a warning in a merged computation")
    finally:
        c.explorer = outer
        c.reset(mk)
    if not res:
        raise T.Infeasible()
    if len(res) == 1:
        return res[0][1]
    if all(isinstance(v, tuple) for _, v in res):
        return tuple(merge([(cd, v[j]) for cd, v in res])
                     for j in range(len(res[0][1])))
    if not all(T.is_num(v) for _, v in res):
        raise Unsupported("merging of non-scalar results")
    return merge(res)
