"""Contracts of internal functions, used in place of their bodies.

A summary is used by a caller only after the contract it states has been
proved against the current source in the same process; otherwise (the
function is gone, its signature differs, a proof fails) the body is executed
inside the caller as before.
"""
from contracts.geometry import drap_of, eta_of
from vc.contract import contract, summary

C = "graphicle.calculate."
D = "graphicle.data.MomentumArray."
TOL = 1e-10


@summary(C + "_three_norm", nparams=3, proved_by="C07.three norm")
def three_norm(cx, x, y, z):
    return cx.sqrt(x * x + y * y + z * z)


@contract("C07", "three norm", fns=[C + "_three_norm"], private=True,
          weight=0.1)
def three_norm_contract(cx):
    x, y, z = cx.real("x"), cx.real("y"), cx.real("z")
    f = cx.private("calculate._three_norm", 3)
    cx.ensure("sqrt(x^2 + y^2 + z^2)", cx.eq(
        f(x, y, z), cx.sqrt(x * x + y * y + z * z)))


def on_plane(cx, t, pseudo):
    """The sum of the momenta has the asked coordinates."""
    off = t[0] * t[0] + t[1] * t[1] > 1e-6
    return off if pseudo else cx.And(off, t[3] - abs(t[2]) > TOL)


def coords(cx, t, pseudo):
    rap = eta_of(cx, *t[:3]) if pseudo else cx.atanh(t[2] / t[3])
    return rap, cx.atan2(t[1], t[0])


@summary(C + "resultant_coords", nparams=2,
         proved_by="C04.coordinates of a sum")
def resultant_coords(cx, pmu, pseudo=True):
    n = len(pmu)
    t = [cx.sum(n, lambda k: c[k]) for c in
         (pmu.x, pmu.y, pmu.z, pmu.energy)]
    cx.require("resultant_coords", on_plane(cx, t, pseudo))
    rap, phi = coords(cx, t, pseudo)
    return cx.opaque("rap", rap), cx.opaque("phi", phi)


@contract("C04", "coordinates of a sum", fns=[C + "resultant_coords"],
          private=True, weight=0.1)
def resultant_coords_contract(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n, kind="timelike", tiny=False) if cx.concrete \
        else cx.momenta("p", n)
    t = [cx.sum(n, lambda k: m.at(k, j)) for j in range(4)]
    pseudo = cx.pick("pseudo", [True, False])
    cx.assume(on_plane(cx, t, pseudo))
    p = cx.g.MomentumArray(m.arr)
    got, warned = cx.warnings(
        lambda: cx.g.calculate.resultant_coords(p, pseudo))
    want = coords(cx, t, pseudo)
    cx.ensure("no warning", len(warned) == 0)
    cx.ensure("finite", cx.And(cx.isfinite(got[0]), cx.isfinite(got[1])))
    cx.ensure("(pseudo)rapidity", cx.eq(got[0], want[0], tol=1e-6,
                                        scale=1.0))
    if cx.symbolic:
        cx.ensure("azimuth", cx.eq(got[1], want[1]))
    cx.unchanged("operand", m)


@summary(D + "shift_rapidity", nparams=2, proved_by="C04.one boost")
def shift_rapidity(cx, pmu, shift):
    n = len(pmu)
    x, y, z, e = pmu.x, pmu.y, pmu.z, pmu.energy
    c, s = cx.cosh(shift), cx.sinh(shift)
    return cx.g.MomentumArray(cx.rows(n, lambda k: (
        x[k], y[k], c * z[k] + s * e[k], c * e[k] + s * z[k])))


@contract("C04", "one boost", fns=[D + "shift_rapidity"], private=True,
          weight=0.1)
def shift_rapidity_contract(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    s = cx.real("s", -3, 3)
    p = cx.g.MomentumArray(m.arr)
    q = p.shift_rapidity(s)
    cx.ensure("a new MomentumArray", type(q) is cx.g.MomentumArray)
    cx.ensure_len("shifted", q, n)
    c, sh = cx.cosh(s), cx.sinh(s)
    for k in cx.each(n):
        x, y, z, e = (m.at(k, j) for j in range(4))
        sc = (abs(e) + abs(z)) * c
        cx.ensure("boosted", cx.And(
            cx.same(q.x[k], x), cx.same(q.y[k], y),
            cx.eq(q.z[k], c * z + sh * e, scale=sc),
            cx.eq(q.energy[k], c * e + sh * z, scale=sc)))
    cx.unchanged("operand", m)


def distance(cx, r1, r2, w1, w2):
    """Distance of the coordinates (r1, phase w1) and (r2, phase w2)."""
    dp = cx.atan2(w1.imag * w2.real - w1.real * w2.imag,
                  w1.real * w2.real + w1.imag * w2.imag)
    return cx.hypot(drap_of(cx, r1, r2), dp)


@summary(C + "_delta_R", nparams=4, proved_by="C05.kernel")
def kernel(cx, r1, r2, w1, w2):
    return cx.matrix(len(r1), len(r2), lambda i, j: distance(
        cx, r1[i], r2[j], w1[i], w2[j]))


@summary(C + "_delta_R_symmetric", nparams=2,
         proved_by="C05.symmetric kernel")
def symmetric_kernel(cx, r, w):
    return cx.matrix(len(r), len(r), lambda i, j: distance(
        cx, r[i], r[j], w[i], w[j]))


@contract("C05", "kernel", fns=[C + "_delta_R"], private=True, weight=0.2)
def kernel_contract(cx):
    n, k = cx.size("n"), cx.size("m")
    a, b = cx.momenta("a", n), cx.momenta("b", k)
    r1, r2 = cx.xfloats("r", n), cx.xfloats("s", k)
    f = cx.private("calculate._delta_R", 4)
    M = cx.g.MomentumArray
    w1, w2 = M(a.arr)._xy_pol, M(b.arr)._xy_pol
    out = f(r1.arr, r2.arr, w1, w2)
    cx.ensure_shape("matrix", out, (n, k))
    for i in cx.each(n, "i"):
        for j in cx.each(k, "j"):
            cx.ensure("the distance", cx.eq(out[i, j], distance(
                cx, r1.at(i), r2.at(j), w1[i], w2[j]), scale=1.0, tol=1e-6))
    cx.unchanged("first", r1)
    cx.unchanged("second", r2)


@contract("C05", "symmetric kernel", fns=[C + "_delta_R_symmetric"],
          private=True, weight=0.2)
def symmetric_contract(cx):
    n = cx.size("n")
    a, r = cx.momenta("a", n), cx.xfloats("r", n)
    f = cx.private("calculate._delta_R_symmetric", 2)
    w = cx.g.MomentumArray(a.arr)._xy_pol
    out = f(r.arr, w)
    cx.ensure_shape("matrix", out, (n, n))
    for i in cx.each(n, "i"):
        cx.ensure("zero diagonal", cx.eq(out[i, i], 0.0))
        for j in cx.each(n, "j"):
            cx.ensure("the distance", cx.eq(out[i, j], distance(
                cx, r.at(i), r.at(j), w[i], w[j]), scale=1.0, tol=1e-6))
    cx.unchanged("operand", r)


def coefficient(cx, n, adj, i):
    """Fraction of the pairs of neighbours of i which are adjacent."""
    deg = cx.count(n, lambda j: adj(i, j))
    links = cx.sum(n, lambda j: cx.ite(adj(i, j), cx.real_of(cx.count(
        n, lambda k: cx.And(adj(i, k), adj(j, k)))), 0.0))
    d = cx.real_of(deg)
    return deg < 2, links, d * (d - 1.0)


@summary(C + "_clust_coeffs", nparams=1, proved_by="C21.coefficients kernel")
def clust_coeffs(cx, adj):
    n = len(adj)

    def value(i):
        few, links, pairs = coefficient(cx, n, lambda a, b: adj[a, b], i)
        return cx.ite(few, lambda: 0.0, lambda: links / pairs)
    return cx.vector(n, value)


@contract("C21", "coefficients kernel", fns=[C + "_clust_coeffs"],
          private=True, weight=0.2)
def coefficients_contract(cx):
    n = cx.size("n", cap=10)
    a = cx.bools("adj", (n, n))
    f = cx.private("calculate._clust_coeffs", 1)
    out = f(a.arr)
    cx.ensure_shape("coefficients", out, (n,))
    for i in cx.each(n, "i"):
        few, links, pairs = coefficient(cx, n, a.at, i)
        cx.ensure("0 with fewer than two neighbours",
                  cx.implies(few, lambda: out[i] == 0.0))
        cx.ensure("fraction of neighbouring pairs", cx.implies(
            cx.Not(few), lambda: cx.eq(out[i], links / pairs, tol=1e-6)))
    cx.unchanged("adjacency", a)
