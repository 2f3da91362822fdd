"""C01-C04: kinematic observables and shifts of MomentumArray."""
from contracts.geometry import eta_of
from vc.contract import contract

D = "graphicle.data.MomentumArray."
C = "graphicle.calculate."
TOL = 1e-10


def row(m, k):
    return m.at(k, 0), m.at(k, 1), m.at(k, 2), m.at(k, 3)


def well(cx, cond):
    """Numerical conditioning: matters to rounding only."""
    return True if cx.symbolic else cond


# ------------------------------------------------------------------ C01
@contract("C01", "components",
          fns=[D + "x", D + "y", D + "z", D + "energy", D + "data"])
def components(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    for j, name in enumerate(("x", "y", "z", "energy")):
        cx.ensure_array(name, getattr(p, name), (n,), lambda k: m.at(k, j))
    cx.ensure_len("momenta", p, n)
    cx.unchanged("operand", m)


@contract("C01", "pt", fns=[D + "pt", D + "_zt_pol", D + "_xy_pol"])
def pt(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    out = p.pt
    cx.ensure_shape("pt", out, (n,))
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        cx.ensure("pt is sqrt(x^2+y^2)",
                  cx.eq(out[k], cx.sqrt(x * x + y * y)))
    cx.unchanged("operand", m)


@contract("C01", "eta", fns=[D + "eta", D + "_spatial_mag"])
def eta(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    out = p.eta
    cx.ensure_shape("eta", out, (n,))
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        mag = cx.sqrt(x * x + y * y + z * z)
        if cx.symbolic:
            cx.assume_here(mag > 0)
            cx.ensure("eta is atanh(z/|p|)", cx.eq(out[k], cx.atanh(z / mag)))
        else:
            pt = cx.sqrt(x * x + y * y)
            if mag == 0.0:
                continue
            if pt == 0.0:
                cx.ensure("eta is atanh(z/|p|)",
                          out[k] == (cx.inf if z > 0 else -cx.inf))
            elif pt > 1e-4 * abs(z):
                cx.ensure("eta is atanh(z/|p|)",
                          abs(out[k] - cx.np.arcsinh(z / pt)) <= 1e-7,
                          f"{out[k]} at {row(m, k)}")
            else:
                cx.ensure("eta has the sign of z", out[k] * z > 0)
    cx.unchanged("operand", m)


@contract("C01", "theta", fns=[D + "theta"])
def theta(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    out = p.theta
    cx.ensure_shape("theta", out, (n,))
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        cx.ensure("theta is the angle from +z",
                  cx.eq(out[k], cx.atan2(cx.sqrt(x * x + y * y), z)))
    cx.unchanged("operand", m)


@contract("C01", "rapidity", fns=[D + "rapidity", C + "_rapidity"])
def rapidity(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    out = cx.quiet(lambda: p.rapidity)
    cx.ensure_shape("rapidity", out, (n,))
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        diff = e - abs(z)
        cx.ensure("rapidity is atanh(z/E) for E > |z|", cx.implies(
            diff > TOL, lambda: near_atanh(cx, out[k], z, e)),
            lambda: f"{out[k]} at {row(m, k)}")
        cx.ensure("rapidity is infinite with the sign of z at E = |z|",
                  cx.implies(
                      cx.And(abs(diff) <= TOL, cx.Not(z == 0.0)),
                      lambda: cx.same(out[k], cx.ite(z > 0, cx.inf,
                                                     -cx.inf))),
                  lambda: f"{out[k]} at {row(m, k)}")
    cx.unchanged("operand", m)


def near_atanh(cx, got, z, e):
    if cx.symbolic:
        return cx.eq(got, cx.atanh(z / e))
    want = 0.5 * cx.log((e + z) / (e - z))
    # the error of E - |z| in units of its last place
    cond = (abs(e) + abs(z)) / (abs(e) - abs(z)) * 1e-15
    return abs(got - want) <= 1e-9 * max(1.0, abs(want)) + cond


@contract("C01", "mass", fns=[D + "mass", C + "_root_diff_two_squares"])
def mass(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    out = p.mass
    cx.ensure_shape("mass", out, (n,))
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        psq = x * x + y * y + z * z
        cx.ensure("mass is the signed root of E^2-|p|^2", cx.eq(
            out[k] * abs(out[k]), e * e - psq, scale=e * e + psq),
            lambda: f"{out[k]} at {row(m, k)}")
    cx.unchanged("operand", m)


@contract("C01", "mass_t", fns=[D + "mass_t", C + "_root_diff_two_squares"])
def mass_t(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    out = p.mass_t
    cx.ensure_shape("mass_t", out, (n,))
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        cx.ensure("mass_t is the signed root of E^2-z^2", cx.eq(
            out[k] * abs(out[k]), e * e - z * z, scale=e * e + z * z),
            lambda: f"{out[k]} at {row(m, k)}")
    cx.unchanged("operand", m)


@contract("C01", "phi", fns=[D + "phi"])
def phi(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    p = cx.g.MomentumArray(m.arr)
    out, warned = cx.warnings(lambda: p.phi)
    cx.ensure_shape("phi", out, (n,))

    def small(k):
        x, y = m.at(k, 0), m.at(k, 1)
        return cx.sqrt(x * x + y * y) <= TOL
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        cx.ensure("phi is NaN exactly when pt <= 1e-10",
                  cx.iff(cx.isnan(out[k]), small(k)))
        cx.ensure("phi is atan2(y, x)", cx.implies(
            cx.Not(small(k)), lambda: cx.eq(out[k], cx.atan2(y, x))))
    n_warn = sum(1 for w in warned
                 if issubclass(w, cx.g.base.NumericalStabilityWarning))
    cx.ensure("a warning exactly when an azimuth is NaN",
              cx.iff(n_warn > 0, cx.any(n, small)))
    again = cx.quiet(lambda: p.phi)
    for k in cx.each(n):
        cx.ensure("phi is stable when read again",
                  cx.same(again[k], out[k]))
    cx.unchanged("operand", m)


@contract("C01", "after selection", mode="concrete", weight=0.7,
          fns=[D + "__getitem__", D + "pt", D + "eta", D + "phi",
               D + "theta", D + "rapidity", D + "mass", D + "mass_t"],
          why="repeats the symbolic contracts after other operations: "
              "observables read before must not leak into derived arrays")
def after_selection(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n)
    sel = cx.bools("sel", n)
    names = ("x", "y", "z", "energy", "pt", "eta", "phi", "theta",
             "rapidity", "mass", "mass_t")
    p = cx.g.MomentumArray(m.arr)
    first = {a: cx.quiet(lambda: getattr(p, a)).copy() for a in names}
    op = cx.pick("op", ["mask", "copy", "shift_phi", "slice", "sum"])
    if op == "mask":
        q, want = p[sel.arr], {a: v[sel.snap] for a, v in first.items()}
    elif op == "slice":
        q, want = p[::-1], {a: v[::-1] for a, v in first.items()}
    elif op == "copy":
        q, want = p.copy(), first
    elif op == "sum":
        q = cx.np.sum(p, axis=0)
        fresh = cx.g.MomentumArray(m.snap.sum(axis=0))
        want = {a: cx.quiet(lambda: getattr(fresh, a)) for a in names}
    else:
        q = p.shift_phi(0.25)
        fresh = cx.g.MomentumArray(q._data.copy())
        want = {a: cx.quiet(lambda: getattr(fresh, a)) for a in names}
    order = list(names)
    cx.rng.shuffle(order)
    for a in order:
        got = cx.quiet(lambda: getattr(q, a))
        ok = len(got) == len(want[a]) and all(
            cx.eq(x, y, tol=1e-12) for x, y in zip(got, want[a]))
        cx.ensure(f"{a} after {op}", ok, f"{got} != {want[a]}")
    for a in names:
        got = cx.quiet(lambda: getattr(p, a))
        cx.ensure(f"{a} unaltered", cx.same_bytes(got, first[a]))


@contract("C01", "scale range", mode="concrete", weight=0.5,
          fns=[D + "pt", D + "mass", D + "mass_t", D + "theta",
               C + "_root_diff_two_squares"],
          why="rounding: the proofs read floats as exact reals; extreme "
              "scales are evaluated")
def scale_range(cx):
    n = 6
    sc = float(10.0 ** cx.int("exp", -100, 100))
    m0 = cx.momenta("p", n, kind="timelike", tiny=False)
    p = cx.g.MomentumArray(m0.snap * sc)
    q = cx.g.MomentumArray(m0.arr)
    for a in ("pt", "mass", "mass_t"):
        for u, v, e in zip(getattr(p, a), getattr(q, a), q.energy):
            # rounding of E^2 - |p|^2
            slack = 1e-6 * abs(v) + 1e-13 * e * e / abs(v) if v else 1e-9
            cx.ensure(a + " scales", abs(u / sc - v) <= slack +
                      1e-9 * cx.scale)
    for u, v in zip(p.theta, q.theta):
        cx.ensure("theta does not depend on the scale", cx.eq(u, v))


# ------------------------------------------------------------------ C02
def boosted(cx, name, got, m, k, s):
    x, y, z, e = row(m, k)
    sc = (abs(e) + abs(z)) * cx.exp(abs(s))
    gx, gy, gz, ge = got
    cx.ensure(name + ": x and y", cx.And(cx.same(gx, x), cx.same(gy, y)))
    cx.ensure(name + ": E+z is multiplied by exp(s)",
              cx.eq(ge + gz, cx.exp(s) * (e + z), scale=sc),
              lambda: f"{got} from {row(m, k)} by {s}")
    cx.ensure(name + ": E-z is multiplied by exp(-s)",
              cx.eq(ge - gz, cx.exp(-s) * (e - z), scale=sc),
              lambda: f"{got} from {row(m, k)} by {s}")


def comps(p, k):
    return p.x[k], p.y[k], p.z[k], p.energy[k]


@contract("C02", "scalar shift", fns=[D + "shift_rapidity", D + "copy"])
def rapidity_scalar(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    s = cx.real("s", -4, 4, special=(0.0, 1.0, -1.0, 12.0, -12.0))
    kind = cx.pick("type", ["float", "np"]) if cx.symbolic else \
        cx.pick("type", ["float", "np", "int", "f32"])
    arg = s
    if not cx.symbolic:
        if kind == "int":
            s = float(round(s))
            arg = int(s)
        elif kind == "np":
            arg = cx.np.float64(s)
        elif kind == "f32":
            arg = cx.np.float32(s)
            s = float(arg)
    p = cx.g.MomentumArray(m.arr)
    if not cx.symbolic and cx.bool("read first"):
        cx.quiet(lambda: (p.pt, p.rapidity, p.mass, p.eta))
    q = p.shift_rapidity(arg)
    cx.ensure("a MomentumArray", type(q) is cx.g.MomentumArray)
    cx.ensure_len("shifted", q, n)
    tol = dict()
    for k in cx.each(n):
        if not cx.symbolic and kind == "f32":
            # float32 shifts are evaluated in single precision by numpy
            x, y, z, e = row(m, k)
            sc = (abs(e) + abs(z)) * cx.exp(abs(s))
            ge, gz = q.energy[k], q.z[k]
            cx.ensure("f32 boost", cx.eq(ge + gz, cx.exp(s) * (e + z),
                                         scale=sc, tol=1e-5))
            continue
        boosted(cx, "boost", comps(q, k), m, k, s)
        x, y, z, e = row(m, k)
        cx.ensure("E^2-z^2 is conserved", cx.eq(
            q.energy[k] * q.energy[k] - q.z[k] * q.z[k], e * e - z * z,
            scale=(e * e + z * z) * cx.exp(2.0 * abs(s))))
    cx.unchanged("operand", m)
    cx.ensure("no shared memory", cx.Not(cx.shares(q._data, p._data)))


@contract("C02", "array shift", fns=[D + "shift_rapidity"])
def rapidity_array(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    s = cx.floats("s", n, -4, 4)
    p = cx.g.MomentumArray(m.arr)
    q = p.shift_rapidity(s.arr)
    cx.ensure_len("shifted", q, n)
    for k in cx.each(n):
        boosted(cx, "boost", comps(q, k), m, k, s.at(k))
    cx.unchanged("operand", m)
    cx.unchanged("shift", s)


@contract("C02", "rapidity grows by s",
          fns=[D + "shift_rapidity", D + "rapidity", C + "_rapidity"])
def rapidity_grows(cx):
    n = cx.size("n")
    m = cx.momenta("p", n, kind="timelike")
    s = cx.real("s", -3, 3)
    p = cx.g.MomentumArray(m.arr)
    before = p.rapidity
    after = p.shift_rapidity(s).rapidity
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        ok = cx.And(e - abs(z) > 1e-6,
                    e + z > 1e-6 * cx.exp(-s), e - z > 1e-6 * cx.exp(s))
        if cx.symbolic:
            cx.ensure("rapidity grows by s", cx.implies(
                ok, lambda: cx.eq(cx.exp(2.0 * after[k]),
                                  cx.exp(2.0 * before[k] + 2.0 * s))))
        else:
            cond = 1e-14 * (e + abs(z)) ** 2 / max(e * e - z * z, 1e-300) \
                * cx.exp(2 * abs(s))
            cx.ensure("rapidity grows by s", cx.implies(
                ok, lambda: abs(after[k] - before[k] - s) <= 1e-9 + cond),
                lambda: f"{before[k]} -> {after[k]} by {s}")


@contract("C02", "inverse", fns=[D + "shift_rapidity"])
def rapidity_inverse(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    s = cx.real("s", -3, 3)
    q = cx.g.MomentumArray(m.arr).shift_rapidity(s)
    r = q.shift_rapidity(-s)
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        sc = (abs(e) + abs(z)) * cx.exp(2.0 * abs(s))
        gx, gy, gz, ge = comps(r, k)
        cx.ensure("restored", cx.And(
            cx.same(gx, x), cx.same(gy, y), cx.eq(gz, z, scale=sc),
            cx.eq(ge, e, scale=sc)))


# ------------------------------------------------------------------ C03
def rotated(cx, q, m, k, a, tol=1e-9):
    x, y, z, e = row(m, k)
    sc = abs(x) + abs(y)
    cx.ensure("x is rotated", cx.eq(
        q.x[k], x * cx.cos(a) - y * cx.sin(a), scale=sc, tol=tol),
        lambda: f"{comps(q, k)} from {row(m, k)} by {a}")
    cx.ensure("y is rotated", cx.eq(
        q.y[k], x * cx.sin(a) + y * cx.cos(a), scale=sc, tol=tol),
        lambda: f"{comps(q, k)} from {row(m, k)} by {a}")
    cx.ensure("z and E", cx.And(cx.same(q.z[k], z),
                                cx.same(q.energy[k], e)))


@contract("C03", "scalar rotation", fns=[D + "shift_phi", D + "copy"])
def phi_scalar(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    a = cx.real("a", -7, 7, special=(0.0, 1.0, -1.0, 3.0))
    kind = cx.pick("type", ["float", "np"]) if cx.symbolic else \
        cx.pick("type", ["float", "np", "int", "f32", "npint", "0d"])
    arg, tol = a, 1e-9
    if cx.symbolic and kind == "np":
        arg = cx.as_numpy(a)
    if not cx.symbolic:
        if kind in ("int", "npint"):
            a = float(round(a))
            arg = int(a) if kind == "int" else cx.np.int64(a)
        elif kind == "np":
            arg = cx.np.float64(a)
        elif kind == "0d":
            arg = cx.np.array(a)
        elif kind == "f32":
            arg, tol = cx.np.float32(a), 1e-5
            a = float(arg)
    p = cx.g.MomentumArray(m.arr)
    if not cx.symbolic and cx.bool("read first"):
        cx.quiet(lambda: (p.pt, p.phi, p.mass, p.eta))
    q = p.shift_phi(arg)
    cx.ensure("a MomentumArray", type(q) is cx.g.MomentumArray)
    cx.ensure_len("shifted", q, n)
    for k in cx.each(n):
        rotated(cx, q, m, k, a, tol)
        x, y, z, e = row(m, k)
        cx.ensure("pt is conserved", cx.eq(
            q.x[k] * q.x[k] + q.y[k] * q.y[k], x * x + y * y,
            tol=max(tol, 1e-9)))
    cx.unchanged("operand", m)
    cx.ensure("no shared memory", cx.Not(cx.shares(q._data, p._data)))


@contract("C03", "array rotation", fns=[D + "shift_phi"])
def phi_array(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    a = cx.floats("a", n, -7, 7)
    p = cx.g.MomentumArray(m.arr)
    q = p.shift_phi(a.arr)
    cx.ensure_len("shifted", q, n)
    for k in cx.each(n):
        rotated(cx, q, m, k, a.at(k))
    cx.unchanged("operand", m)
    cx.unchanged("shift", a)


@contract("C03", "inverse", fns=[D + "shift_phi"])
def phi_inverse(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    a = cx.real("a", -7, 7)
    r = cx.g.MomentumArray(m.arr).shift_phi(a).shift_phi(-a)
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        sc = abs(x) + abs(y)
        gx, gy, gz, ge = comps(r, k)
        cx.ensure("restored", cx.And(
            cx.eq(gx, x, scale=sc), cx.eq(gy, y, scale=sc),
            cx.same(gz, z), cx.same(ge, e)))


# ------------------------------------------------------------------ C04
@contract("C04", "boosts only", weight=2, timeout=120,
          uses=[C + "resultant_coords", D + "shift_rapidity"],
          fns=[D + "shift_eta", D + "shift_rapidity",
               C + "resultant_coords"])
def eta_boosts(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n, kind="timelike", tiny=False)
    s = cx.real("s", -3, 3, special=(0.0, 1.0))
    maxc = cx.int("max_corrections", 0, 12, special=(0, 1, 2, 10))
    tol = cx.real("abs_tol", 0.0, 1.0,
                  special=(1e-10, 1e-10, 1e-8, 1e-6, 1e-3, 0.1, 0.5))
    tx = cx.sum(n, lambda k: m.at(k, 0))
    ty = cx.sum(n, lambda k: m.at(k, 1))
    tz = cx.sum(n, lambda k: m.at(k, 2))
    te = cx.sum(n, lambda k: m.at(k, 3))
    # the summed momentum has an azimuth and a rapidity
    cx.assume(tol >= 0)
    cx.assume(tx * tx + ty * ty > 1e-4)
    cx.assume(te * te - tz * tz > 1e-4)
    cx.assume(te > 0)
    cx.assume(te - abs(tz) > TOL)
    if cx.symbolic:
        cx.rule("Boosted", maxc, m, n, eta_of, TOL)
    p = cx.g.MomentumArray(m.arr)
    q, warned = cx.warnings(lambda: p.shift_eta(
        s, max_corrections=maxc, abs_tol=tol))
    cx.ensure("a MomentumArray", type(q) is cx.g.MomentumArray)
    cx.ensure_len("shifted", q, n)
    n_warn = sum(1 for w in warned
                 if issubclass(w, cx.g.base.NumericalStabilityWarning))
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        gx, gy, gz, ge = comps(q, k)
        sc = max(ge * ge + gz * gz, e * e + z * z) if cx.concrete else 0.0
        cx.ensure("x and y are conserved",
                  cx.And(cx.same(gx, x), cx.same(gy, y)))
        cx.ensure("E^2-z^2 is conserved", cx.eq(
            ge * ge - gz * gz, e * e - z * z, scale=100.0 * sc))
        # one longitudinal boost for all elements: the ratio of E+z after
        # and before is common
        k2 = cx.index("other", n)
        x2, y2, z2, e2 = row(m, k2)
        hx, hy, hz, he = comps(q, k2)
        s1 = (abs(ge) + abs(gz)) * (abs(e2) + abs(z2)) + \
            (abs(he) + abs(hz)) * (abs(e) + abs(z)) if cx.concrete else 0.0
        cx.ensure("the boost is common to all elements", cx.eq(
            (ge + gz) * (e2 + z2), (he + hz) * (e + z), scale=s1))
        cx.drawn.pop("other", None) if cx.concrete else None
    # pseudorapidity of the sum
    hz = cx.sum(n, lambda k: q.z[k])
    tpt = cx.sqrt(tx * tx + ty * ty)
    if cx.symbolic:
        import z3  # noqa: F401
        mag0 = cx.sqrt(tx * tx + ty * ty + tz * tz)
        mag1 = cx.sqrt(tx * tx + ty * ty + hz * hz)
        end, start = cx.atanh(hz / mag1), cx.atanh(tz / mag0)
        cx.ensure("the shift is reached or a warning is issued", cx.Or(
            n_warn > 0, abs(end - (start + s)) <= tol))
    else:
        start, end = cx.np.arcsinh(tz / tpt), cx.np.arcsinh(hz / tpt)
        cond = (1 + abs(hz / tpt) ** 2) * 1e-12 + 1e-9
        cx.ensure("the shift is reached or a warning is issued",
                  n_warn > 0 or abs(end - (start + s)) <= tol + cond,
                  f"eta {start} -> {end}, asked {s}, tol {tol}, "
                  f"{maxc} corrections")
    cx.unchanged("operand", m)


@contract("C04", "experimental", fns=[D + "shift_eta"])
def eta_experimental(cx):
    n = cx.size("n")
    m = cx.momenta("p", n, kind="transverse")
    s = cx.real("s", -3, 3)
    p = cx.g.MomentumArray(m.arr)
    q = p.shift_eta(s, experimental=True)
    cx.ensure_len("shifted", q, n)
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        pt2 = x * x + y * y
        gx, gy, gz, ge = comps(q, k)
        cx.ensure("x and y", cx.And(cx.same(gx, x), cx.same(gy, y)))
        cx.ensure("the energy is NaN", cx.isnan(ge))
        if cx.symbolic:
            cx.assume_here(pt2 > 0)
            eta = cx.atanh(z / cx.sqrt(pt2 + z * z))
            cx.ensure("z is pt*sinh(eta+s)", cx.eq(
                gz, cx.sqrt(pt2) * cx.sinh(eta + s)))
        else:
            eta = cx.np.arcsinh(z / pt2 ** 0.5)
            want = pt2 ** 0.5 * cx.np.sinh(eta + s)
            cx.ensure("z is pt*sinh(eta+s)", cx.eq(
                gz, want, tol=1e-7 * (1 + z * z / pt2),
                scale=pt2 ** 0.5), f"{gz} != {want}")
    cx.unchanged("operand", m)


@contract("C04", "array experimental", mode="concrete", weight=0.3,
          fns=[D + "shift_eta"], why="same body as the scalar case")
def eta_experimental_array(cx):
    n = cx.size("n")
    m = cx.momenta("p", n, kind="transverse")
    s = cx.floats("s", n, -2, 2)
    q = cx.g.MomentumArray(m.arr).shift_eta(s.arr, experimental=True)
    for k in range(n):
        x, y, z, e = row(m, k)
        pt = (x * x + y * y) ** 0.5
        want = pt * cx.np.sinh(cx.np.arcsinh(z / pt) + s.at(k))
        cx.ensure("z is pt*sinh(eta+s)", cx.eq(
            q.z[k], want, tol=1e-7 * (1 + z * z / pt ** 2), scale=pt))
    cx.unchanged("operand", m)


@contract("C04", "massless converge", mode="concrete", weight=0.2,
          fns=[D + "shift_eta"],
          why="reaching the tolerance is a matter of rounding")
def eta_converges(cx):
    x, y, z = cx.real("x", 0.5, 5), cx.real("y", -5, 5), cx.real("z", -5, 5)
    s = cx.real("s", -2, 2)
    e = (x * x + y * y + z * z) ** 0.5
    p = cx.g.MomentumArray([[x, y, z, e]])
    q, warned = cx.warnings(lambda: p.shift_eta(s, abs_tol=1e-6))
    cx.ensure("no warning", not warned, f"{warned}")
    cx.ensure("the shift is reached",
              abs(q.eta[0] - p.eta[0] - s) <= 1.1e-6)


@contract("C01", "read after mutation", mode="concrete", weight=0.1,
          fns=[D + "data", D + "pt"],
          why="a history of two reads with a mutation between them; recorded "
              "as a known finding")
def after_mutation(cx):
    m = cx.momenta("p", 3, kind="transverse", tiny=False)
    p = cx.g.MomentumArray(m.arr)
    first = p.pt.copy()
    p.data = cx.g.MomentumArray(2.0 * m.snap).data
    cx.ensure_array("the components follow", p.x, (3,),
                    lambda k: 2.0 * m.at(k, 0))
    cx.ensure("pt after pt was read and the data replaced", all(
        cx.eq(b, 2.0 * a) for a, b in zip(first, p.pt)),
        lambda: f"{p.pt} after {first}")
