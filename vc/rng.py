"""The model of numpy's random generators: a draw is an arbitrary function of
the seed, the number of draws made before, and the index."""
from __future__ import annotations

import numpy as np
import z3

from . import arrays as A
from . import binders as Bd
from . import ops
from . import terms as T
from .arrays import as_int
from .terms import SReal, Unsupported, ctx


class Generator:
    def __init__(self, seed):
        ctx().trust("numpy.random.Generator draws are functions of the seed "
                    "and the sequence of calls, within the stated range")
        self.calls = 0
        if seed is None:
            self.seed = T.fresh_int("entropy")
        elif T.is_sym(seed) or isinstance(seed, (int, np.integer)):
            self.seed = Bd.T_int(as_int(seed))
        else:
            raise Unsupported("seed")

    def _draw(self, kind, size, law=None, args=()):
        self.calls += 1
        nm = f"rng_{kind}_{self.calls}"
        if size is None:
            shape = ()
        else:
            shape = size if isinstance(size, (tuple, list)) else (size,)
            shape = tuple(as_int(s) for s in shape)
            for s in shape:
                ops.check_shape((s,))
        f = T.fn(nm, *([T.I] * (len(shape) + 1)), T.R)

        def cell(ix):
            return SReal(f(self.seed, *[Bd.T_int(i) for i in ix]))
        if law is not None:
            ctx().facts.append(((nm,), law))
        if law is unit and len(shape) == 1:
            if not hasattr(ctx(), "draws"):
                ctx().draws = []
            ctx().draws.append((f, self.seed, shape[0]))
        if not shape:
            v = cell(())
            if law is not None:
                ctx().assume(law(v.v))
            return v
        return A.build(shape, A.F8, cell)

    def random(self, size=None, dtype=np.float64, out=None):
        if np.dtype(dtype) != A.F8 or out is not None:
            raise Unsupported("Generator.random options")
        return self._draw("random", size, unit)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            # one draw per entry of the broadcast limits
            shapes = {getattr(v, "ishape", ()) for v in (low, high)} - {()}
            if len(shapes) > 1:
                raise Unsupported("uniform between two arrays")
            size = shapes.pop() if shapes else None
        r = self._draw("random", size, unit)
        return low + (high - low) * r

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        if np.dtype(dtype) != A.F8 or out is not None:
            raise Unsupported("Generator.standard_normal options")
        return self._draw("normal", size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (getattr(loc, "ishape", ()) or
                             getattr(scale, "ishape", ())):
            raise Unsupported("normal of arrays")
        return loc + scale * self._draw("normal", size)

    def __getattr__(self, n):
        raise Unsupported(f"random generator method {n}")


def unit(e):
    return z3.And(e >= 0, e < 1)


def default_rng(seed=None):
    if isinstance(seed, Generator):
        return seed
    return Generator(seed)
