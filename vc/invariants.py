"""Loop invariants of internal loops.

The facts about the carried variables are candidates: those the verifier
cannot establish at entry and preserve are dropped (``DROPPED``) and the
contract is verified again without them.
"""
from __future__ import annotations

import z3

from . import binders as Bd
from . import norm
from . import terms as T
from .arrays import as_int
from .loop import MISSING
from .terms import SBool, SInt, SReal, Unsupported, b_and, ctx

DROPPED = set()
CANDIDATES = set()


class Boosted:
    """The carried momenta are the given ones boosted along the beam; each
    carried number is the pseudorapidity of the sum of the carried momenta;
    everything else that is carried does not change."""

    def __init__(self, cx, trip, m, n, eta, tol):
        self.cx, self.trip, self.m, self.n = cx, trip, m, as_int(n)
        self.eta, self.tol = eta, tol

    # -- kinds of variables
    def is_pmu(self, v):
        return isinstance(v, self.cx.g.MomentumArray)

    @staticmethod
    def is_real(v):
        return type(v) is SReal or type(v) is float

    def row(self, k):
        return tuple(T.to_real(self.m.at(k, j)) for j in range(4))

    def sums(self, p):
        cols = (p.x, p.y, p.z, p.energy)
        return [self.cx.sum(self.n, lambda k: c[k]) for c in cols]

    def links(self, env):
        """(label, claim) tying carried numbers to carried momenta."""
        out = []
        for v in sorted(n for n, x in env.items() if self.is_real(x)):
            for p in sorted(n for n, x in env.items() if self.is_pmu(x)):
                label = f"{v} is the pseudorapidity of {p}"
                CANDIDATES.add(label)
                if label in DROPPED:
                    continue
                t = self.sums(env[p])
                out.append((label, self.cx.eq(env[v], self.eta(
                    self.cx, t[0], t[1], t[2]))))
        return out

    # -- the arbitrary state
    def havoc(self, env):
        new = {}
        cx = self.cx
        for name, v in env.items():
            if v is MISSING:
                new[name] = v
            elif self.is_pmu(v):
                b = SReal(T.fresh_real("boost"), py=False)
                c, s = cx.cosh(b), cx.sinh(b)

                def row(k, c=c, s=s):
                    x, y, z, e = self.row(k)
                    return x, y, c * z + s * e, c * e + s * z
                new[name] = cx.g.MomentumArray(cx.rows(self.n, row))
                t = self.sums(new[name])
                # precondition: no frame puts the sum on the beam axis
                cx.assume(t[3] - abs(t[2]) > self.tol)
            elif self.is_real(v):
                new[name] = SReal(T.fresh_real(name), py=True)
            elif isinstance(v, (SBool, SInt, bool, int, str, type(None))):
                new[name] = v
            else:
                raise Unsupported(f"loop variable {name}")
        for _, claim in self.links(new):
            ctx().assume(T.bool_e(claim))
        return new

    # -- obligations
    def prove(self, env, when):
        c = ctx()

        def goal(label, e):
            c.prove(f"invariant: {label} {when}", T.bool_e(e),
                    kind="invariant")
        for name, v0 in self.entry.items():
            v = env[name]
            if v0 is MISSING:
                continue
            if self.is_pmu(v0):
                if not self.is_pmu(v):
                    raise Unsupported(f"{name} changes its type")
                self.boosted(name, v, goal)
            elif self.is_real(v0):
                v = T.to_real(v)
                goal(f"{name} is finite", T.b_not(T.b_or(
                    v.nan, v.pinf, v.ninf)))
            elif v is not v0:
                if T.is_sym(v) or T.is_sym(v0):
                    e = T.i_eq(v.e, v0.e) if type(v) is SInt else \
                        T.b_z3(T.bool_e(v)) == T.b_z3(T.bool_e(v0))
                    goal(f"{name} does not change", e)
                else:
                    goal(f"{name} does not change",
                         type(v) is type(v0) and v == v0)
        for label, claim in self.links(env):
            goal(label, claim)

    def boosted(self, name, p, goal):
        """p is a boost of the given momenta: the factor of E + z is read
        off the result."""
        cx = self.cx
        goal(f"{name} keeps its length", cx.eq(len_of(p), T.mkint(self.n)))
        k = Bd.index_var("k")
        c = ctx()
        mk = c.mark()
        c.assume(z3.And(k >= 0, k < Bd.T_int(self.n)))
        i = T.mkint(k)
        x0, y0, z0, e0 = self.row(i)
        x, y, z, e = (T.to_real(col[i]) for col in
                      (p.x, p.y, p.z, p.energy))
        plus = norm.poly(norm.canon((e + z).v))
        atom = e0.v.get_id()
        lam = {}
        for mono, co in plus.items():
            hit = [j for j, (a, w) in enumerate(mono)
                   if norm.ATOM[a].get_id() == atom and w == 1]
            if hit:
                rest = mono[:hit[0]] + mono[hit[0] + 1:]
                lam[rest] = lam.get(rest, 0) + co
        lam = norm.to_z3(lam)
        if Bd.has_var(lam, k):
            raise Unsupported(f"the boost of {name} depends on the element")
        lam = SReal(lam)
        goal(f"{name} keeps x and y", b_and(T.same(x, x0), T.same(y, y0)))
        goal(f"{name} is boosted: E + z scales", T.same(
            e + z, lam * (e0 + z0)))
        goal(f"{name} is boosted: E - z scales inversely", T.same(
            (e - z) * lam, e0 - z0))
        goal(f"{name} is boosted: positive scale", T.r_lt(T.ZERO, lam.v))
        c.reset(mk)


def len_of(p):
    return T.mkint(p.data.ishape[0])
