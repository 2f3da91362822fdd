"""C07 event shapes, C22 random momenta."""
from vc.contract import contract

C = "graphicle.calculate."
D = "graphicle.data.MomentumArray."


def vec(m, k):
    return m.at(k, 0), m.at(k, 1), m.at(k, 2)


def norm(cx, v):
    return cx.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0])


def thrust_at(cx, m, n, axis):
    """sum |p.n| / sum |p|"""
    return (cx.sum(n, lambda k: cx.abs(dot(vec(m, k), axis)))
            / cx.sum(n, lambda k: norm(cx, vec(m, k))))


def spherocity_at(cx, m, n, axis):
    """((4/pi) sum |p x n| / sum |p|)^2"""
    r = (4.0 * cx.sum(n, lambda k: norm(cx, cross(vec(m, k), axis)))
         / (cx.pi * cx.sum(n, lambda k: norm(cx, vec(m, k)))))
    return r * r


def axis_of(cx, phi, theta):
    return (cx.sin(theta) * cx.cos(phi), cx.sin(theta) * cx.sin(phi),
            cx.cos(theta))


SHAPES = {"thrust": (thrust_at, -1.0), "spherocity": (spherocity_at, 1.0)}


def some_moving(cx, m, n):
    cx.assume(cx.sum(n, lambda k: norm(cx, vec(m, k))) > 0)


@contract("C07", "c_parameter", weight=1.5, uses=[C + "_three_norm"],
          fns=[C + "c_parameter", C + "_c_parameter", C + "_three_norm"])
def c_parameter(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n)
    some_moving(cx, m, n)
    out = cx.g.calculate.c_parameter(cx.g.MomentumArray(m.arr))

    def pair(i, j):
        a, b = vec(m, i), vec(m, j)
        na, nb, d = norm(cx, a), norm(cx, b), dot(a, b)
        if cx.concrete and na * nb == 0:
            return 0.0
        return cx.ite(na * nb == 0, 0.0, lambda: na * nb - d * d / (na * nb))
    total = cx.sum(n, lambda k: norm(cx, vec(m, k)))
    num = cx.sum(n, lambda i: cx.sum(n, lambda j: pair(i, j)))
    cx.ensure("1.5 sum_ij(|pi||pj| - (pi.pj)^2/|pi||pj|) / (sum |p|)^2",
              cx.eq(out, 1.5 * num / (total * total), scale=1.0))
    cx.unchanged("operand", m)


@contract("C07", "value at the reported axis", weight=1.5,
          uses=[C + "_three_norm"],
          fns=[C + "thrust", C + "spherocity", C + "_thrust_with_grad",
               C + "_spherocity_with_grad", C + "_angles_to_axis"])
def at_axis(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n)
    some_moving(cx, m, n)
    name = cx.pick("shape", ["thrust", "spherocity"])
    value, sign = SHAPES[name]
    f = getattr(cx.g.calculate, name)
    p = cx.g.MomentumArray(m.arr)
    seed = cx.int("seed", 0, 10000)
    out, axis = cx.quiet(lambda: f(p, return_axis=True, rng_seed=seed))
    cx.ensure_shape("axis", axis, (3,))
    a = (axis[0], axis[1], axis[2])
    cx.ensure("the axis is a unit vector", cx.eq(dot(a, a), 1.0))
    cx.ensure("the value at the reported axis",
              cx.eq(out, value(cx, m, n, a), scale=1e-6))
    plain = cx.quiet(lambda: f(p, rng_seed=seed))
    if cx.concrete:
        cx.ensure("a scalar without the axis", cx.np.ndim(plain) == 0)
    cx.ensure("same value without the axis, from the same seed",
              cx.eq(plain, out))
    if cx.concrete:
        again, axis2 = cx.quiet(lambda: f(p, return_axis=True,
                                          rng_seed=seed))
        cx.ensure("a fixed seed reproduces the result",
                  again == out and tuple(axis) == tuple(axis2))
    cx.unchanged("operand", m)


@contract("C07", "optimisation", weight=2, uses=[C + "_three_norm"],
          fns=[C + "thrust", C + "spherocity", C + "_thrust_with_grad",
               C + "_spherocity_with_grad"])
def optimisation(cx):
    """The minimiser is given the objective, its gradient and a hemisphere."""
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n)
    some_moving(cx, m, n)
    name = cx.pick("shape", ["thrust", "spherocity"])
    value, sign = SHAPES[name]
    f = getattr(cx.g.calculate, name)
    p = cx.g.MomentumArray(m.arr)
    out, calls = cx.minimize_calls(lambda: f(p, rng_seed=3))
    u = cx.real("azimuth", -1.5, 1.5)
    v = cx.real("inclination", -1.5, 1.5)
    axis = axis_of(cx, u, v)
    if cx.symbolic:
        cx.forall(n, lambda k: cx.Or(
            rough(cx, name, vec(m, k), axis) != 0.0,
            norm(cx, vec(m, k)) == 0.0))
    want = sign * value(cx, m, n, axis)
    for call in calls:
        got = call.value(u, v)
        cx.ensure("the objective minimised",
                  cx.eq(got, want, scale=1e-6), f"{name}: {got} {want}")
        cx.ensure("the axes searched cover a hemisphere",
                  call.covers_hemisphere())
        if cx.concrete:
            if abs(sign * out - call.fun) < 1e-12:
                cx.ensure("no worse than the starting axis",
                          call.fun <= call.at_start + 1e-9)
            if not smooth(cx, m, n, axis, name):
                continue
        for j in (0, 1):
            g = call.gradient(u, v, j)
            if g is None:
                continue
            d = cx.derivative(lambda a, b: sign * value(
                cx, m, n, axis_of(cx, a, b)), (u, v), j)
            cx.ensure(f"the exact gradient [{j}]",
                      cx.eq(g, d, scale=1.0, tol=2e-5),
                      f"{name}: {g} != {d} at {u}, {v}")
    cx.unchanged("operand", m)


def rough(cx, name, v, axis):
    """0 where the objective has no derivative."""
    if name == "thrust":
        return dot(v, axis)
    return norm(cx, cross(v, axis))


def smooth(cx, m, n, axis, name):
    for k in range(n):
        v = vec(m, k)
        q = norm(cx, v)
        d = abs(dot(v, axis)) if name == "thrust" else norm(
            cx, cross(v, axis))
        if q and d < 1e-2 * q:
            return False
    return True


@contract("C07", "at rest", mode="concrete", weight=0.7,
          fns=[C + "thrust", C + "spherocity", C + "c_parameter"],
          why="relates two optimiser trajectories")
def at_rest(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n, kind="moving")
    k = cx.index("where", n + 1)
    mass = cx.real("mass", 0.0, 5.0)
    np = cx.np
    more = np.insert(m.snap, k, [0.0, 0.0, 0.0, mass], axis=0)
    name = cx.pick("shape", ["thrust", "spherocity", "c_parameter"])
    f = getattr(cx.g.calculate, name)
    kw = {} if name == "c_parameter" else {"rng_seed": 7}
    a = cx.quiet(lambda: f(cx.g.MomentumArray(m.arr), **kw))
    b = cx.quiet(lambda: f(cx.g.MomentumArray(more), **kw))
    cx.ensure("momenta at rest contribute nothing",
              cx.eq(a, b, scale=1.0, tol=1e-6), f"{a} != {b}")


# ------------------------------------------------------------------ C22
@contract("C22", "physical", weight=1.5, fns=[D + "from_spherical_uniform",
                                              C + "_root_diff_two_squares"])
def physical(cx):
    n = cx.size("n")
    emax = cx.real("max_energy", 0.0, 100.0, special=(1.0, 0.0))
    massless = cx.pick("massless", [0.0, 1.0, 0.5, 0.1])
    default = cx.pick("default massless", [False, True])
    cx.assume(emax >= 0)
    seed = cx.int("seed", 0, 100000)
    f = cx.g.MomentumArray.from_spherical_uniform
    if default:
        massless = 0.0
        p = f(n, emax, seed=seed)
    else:
        p = f(n, emax, massless, seed)
    cx.ensure("a MomentumArray", type(p) is cx.g.MomentumArray)
    cx.ensure_len("momenta", p, n)
    x, y, z, e = p.x, p.y, p.z, p.energy
    for k in cx.each(n):
        cx.ensure("0 <= E <= max_energy", cx.And(
            cx.Not(cx.lt(e[k], 0.0)), cx.Not(cx.lt(emax, e[k]))))
        p2 = x[k] * x[k] + y[k] * y[k] + z[k] * z[k]
        slack = 0.0 if cx.symbolic else 1e-9 * e[k] * e[k] + 1e-300
        cx.ensure("|p| <= E", cx.Not(cx.lt(e[k] * e[k] + slack, p2)))
        if massless == 1.0:
            cx.ensure("massless=1 gives |p| = E for all",
                      cx.eq(p2, e[k] * e[k]))


@contract("C22", "law", weight=1.0, fns=[D + "from_spherical_uniform"],
          why="the map from uniform draws to directions")
def law(cx):
    """p = |p| (sqrt(1-c^2) cos f, sqrt(1-c^2) sin f, c) for the draws of
    one generator: c uniform on [-1, 1] and f uniform on [-pi, pi]."""
    if cx.concrete:
        return distribution(cx)
    n = cx.size("n")
    emax = cx.real("max_energy", 0.0, 100.0)
    massless = cx.pick("massless", [0.0, 1.0, 0.5])
    p = cx.g.MomentumArray.from_spherical_uniform(n, emax, massless, 1)
    cx.direction_law(p, n)


def distribution(cx):
    """Kolmogorov-Smirnov distances far beyond what chance allows."""
    np = cx.np
    n = 4000
    seed = cx.int("seed", 0, 1 << 30)
    massless = cx.pick("massless", [0.0, 0.3, 1.0, 0.8])
    emax = cx.pick("max_energy", [1.0, 50.0, 1e-3])
    p = cx.g.MomentumArray.from_spherical_uniform(n, emax, massless, seed)
    v = np.stack([p.x, p.y, p.z], 1)
    mag = np.sqrt((v ** 2).sum(1))
    keep = mag > 1e-6 * emax
    v, mag = v[keep], mag[keep]
    e = p.energy[keep]
    cx.ensure("most momenta move", len(v) > 0.95 * n)
    c = v[:, 2] / mag
    f = np.arctan2(v[:, 1], v[:, 0])

    def ks(u):
        u = np.sort(u)
        i = np.arange(1, len(u) + 1) / len(u)
        return max(abs(i - u).max(), abs(i - 1.0 / len(u) - u).max())
    lim = 3.2 / len(v) ** 0.5              # p-value about 2.5e-9
    cx.ensure("cos(theta) is uniform", ks((c + 1) / 2) < lim)
    cx.ensure("the azimuth is uniform",
              ks((f + np.pi) / (2 * np.pi)) < lim)
    lim6 = 6.5 / len(v) ** 0.5
    for a, b in ((c, np.cos(f)), (c, np.sin(f)), (c, np.cos(2 * f)),
                 (c * c, np.cos(f)), (c * c, np.sin(f)),
                 (abs(c), np.sin(2 * f)), (c, e), (np.cos(f), e),
                 (np.sin(f), e)):
        r = np.mean((a - a.mean()) * (b - b.mean())) / (
            a.std() * b.std())
        cx.ensure("independent", abs(r) < lim6, f"correlation {r}")
    ml = np.abs(mag - e) <= 1e-9 * e
    frac = ml.mean()
    sd = (massless * (1 - massless) / len(v)) ** 0.5
    cx.ensure("the fraction of massless momenta",
              abs(frac - massless) < 6.5 * sd + 0.004,
              f"{frac} for {massless}")
    cx.ensure("energies fill the range", ks(e / emax) < 0.1)


@contract("C22", "seed", fns=[D + "from_spherical_uniform"])
def seeded(cx):
    n = cx.size("n")
    massless = cx.pick("massless", [0.0, 1.0, 0.5])
    seed = cx.int("seed", 0, 100000)
    f = cx.g.MomentumArray.from_spherical_uniform
    a = f(n, 10.0, massless=massless, seed=seed)
    b = f(n, 10.0, massless=massless, seed=seed)
    for c in ("x", "y", "z", "energy"):
        u, v = getattr(a, c), getattr(b, c)
        for k in cx.each(n):
            cx.ensure("equal seeds give equal results",
                      cx.same(u[k], v[k]))
    if cx.concrete and n > 3:
        other = f(n, 10.0, massless=massless, seed=seed + 1)
        cx.ensure("another seed differs", (other.x != a.x).any())


@contract("C22", "range check", fns=[D + "from_spherical_uniform"])
def range_check(cx):
    n = cx.size("n")
    m = cx.real("massless", -3.0, 3.0, special=(0.0, 1.0, -1e-9, 1 + 1e-9))
    if cx.concrete and cx.rng.random() < 0.1:
        m = cx.nan
    bad = cx.Or(cx.lt(m, 0.0), cx.lt(1.0, m), cx.isnan(m))
    f = cx.g.MomentumArray.from_spherical_uniform
    err = cx.raises(ValueError, lambda: f(n, 1.0, m, 0))
    cx.ensure("a probability outside [0, 1] raises ValueError",
              cx.iff(err is not None, bad))
