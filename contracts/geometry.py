"""C05, C06, C08, C18: distances, splittings, sums and pruning."""
from vc.contract import contract

D = "graphicle.data.MomentumArray."
C = "graphicle.calculate."
T = "graphicle.transform."
M = "graphicle.matrix."
S = "graphicle.select."


def row(m, k):
    return m.at(k, 0), m.at(k, 1), m.at(k, 2), m.at(k, 3)


def dphi_of(cx, x1, y1, x2, y2):
    """Azimuth difference wrapped into [-pi, pi]."""
    if cx.symbolic:
        return cx.atan2(y1 * x2 - x1 * y2, x1 * x2 + y1 * y2)
    return cx.wrap(cx.atan2(y1, x1) - cx.atan2(y2, x2))


def eta_of(cx, x, y, z):
    """atanh(z/|p|), evaluated stably at run time."""
    if cx.symbolic:
        return cx.atanh(z / cx.sqrt(x * x + y * y + z * z))
    pt = cx.sqrt(x * x + y * y)
    if pt == 0.0:
        return cx.nan if z == 0 else (cx.inf if z > 0 else -cx.inf)
    return float(cx.np.arcsinh(z / pt))


def rap_of(cx, z, e):
    """atanh(z/E) for E > |z|; infinite at E = |z|."""
    inf = cx.ite(z > 0, cx.inf, -cx.inf)
    if cx.symbolic:
        return cx.ite(e - abs(z) > 1e-10, cx.atanh(z / e), inf)
    if e - abs(z) > 1e-10:
        return 0.5 * cx.log((e + z) / (e - z))
    return inf


def drap_of(cx, r1, r2):
    d = r1 - r2
    return cx.ite(cx.isnan(d), 0.0, d)


def illcond(cx, *pts):
    """Rounding dominates: tiny pt beside z, or E close to |z|."""
    if cx.symbolic:
        return False
    for x, y, z, e in pts:
        pt = (x * x + y * y) ** 0.5
        if 0 < pt <= 1e-4 * abs(z):
            return True
        if 0 < e - abs(z) < 1e-6 * abs(z):
            return True
    return False


def dr_ok(cx, got, a, b, pseudo):
    """got is the distance between momenta a and b."""
    x1, y1, z1, e1 = a
    x2, y2, z2, e2 = b
    if pseudo:
        r1, r2 = eta_of(cx, x1, y1, z1), eta_of(cx, x2, y2, z2)
    else:
        r1, r2 = rap_of(cx, z1, e1), rap_of(cx, z2, e2)
    dr = drap_of(cx, r1, r2)
    dp = dphi_of(cx, x1, y1, x2, y2)
    if cx.symbolic:
        return cx.eq(got, cx.hypot(dr, dp))
    want = (dr * dr + dp * dp) ** 0.5
    return cx.eq(got, want, scale=1.0, tol=1e-6)


def usable(cx, m, n, pseudo):
    """Momenta whose (pseudo)rapidity and azimuth are defined."""
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        if pseudo:
            cx.assume_at(k, x * x + y * y + z * z > 0)
        else:
            cx.assume_at(k, e >= abs(z))
            cx.assume_at(k, cx.Or(e - abs(z) > 1e-10, cx.Not(z == 0)))


# ------------------------------------------------------------------ C05
KERNELS = [C + "_delta_R", C + "_delta_R_symmetric"]


@contract("C05", "pairs", weight=2, uses=KERNELS[:1],
          fns=[D + "delta_R", C + "_delta_R", C + "_thread_scope"])
def pairs(cx):
    n, k = cx.size("n"), cx.size("m")
    a = cx.momenta("a", n, kind="physical")
    b = cx.momenta("b", k, kind="physical")
    pseudo = cx.pick("pseudo", [True, False])
    threads = cx.pick("threads", [1] if cx.symbolic else [1, 2, 3])
    p, q = cx.g.MomentumArray(a.arr), cx.g.MomentumArray(b.arr)
    out = cx.quiet(lambda: p.delta_R(q, pseudo=pseudo, threads=threads))
    cx.ensure_shape("delta_R", out, (n, k))
    for i in cx.each(n, "i"):
        for j in cx.each(k, "j"):
            ra, rb = row(a, i), row(b, j)
            if pair_excluded(cx, ra, rb, pseudo):
                continue
            cx.ensure("the distance of every pair",
                      dr_ok(cx, out[i, j], ra, rb, pseudo),
                      lambda: f"{out[i, j]} at {ra}, {rb}")
    cx.unchanged("first", a)
    cx.unchanged("second", b)


def pair_excluded(cx, ra, rb, pseudo):
    """Undefined coordinates: at rest, on the beam, or E < |z|."""
    for x, y, z, e in (ra, rb):
        if cx.symbolic:
            cx.assume_here(x * x + y * y > 0)
            if not pseudo:
                cx.assume_here(e - abs(z) >= 0)
                cx.assume_here(cx.Or(e - abs(z) > 1e-10, cx.Not(z == 0)))
        else:
            if x * x + y * y == 0:
                if not pseudo or z == 0 or not (ra[0] or ra[1] or rb[0] or
                                                rb[1]):
                    return True
            if not pseudo and (e < abs(z) or (e - abs(z) < 1e-10 and z == 0)):
                return True
    return illcond(cx, ra, rb)


@contract("C05", "collinear with the beam", uses=KERNELS[:1],
          fns=[D + "delta_R", C + "_delta_R"])
def beam(cx):
    """Same infinity: zero rapidity difference; otherwise infinite."""
    n, k = cx.size("n"), cx.size("m")
    a = cx.momenta("a", n, kind="physical")
    b = cx.momenta("b", k, kind="physical")
    p, q = cx.g.MomentumArray(a.arr), cx.g.MomentumArray(b.arr)
    out = cx.quiet(lambda: p.delta_R(q))
    for i in cx.each(n, "i"):
        for j in cx.each(k, "j"):
            x1, y1, z1, e1 = row(a, i)
            x2, y2, z2, e2 = row(b, j)
            up1 = cx.And(x1 == 0, y1 == 0, z1 > 0)
            dn1 = cx.And(x1 == 0, y1 == 0, z1 < 0)
            up2 = cx.And(x2 == 0, y2 == 0, z2 > 0)
            dn2 = cx.And(x2 == 0, y2 == 0, z2 < 0)
            cx.ensure("same beam direction", cx.implies(
                cx.Or(cx.And(up1, up2), cx.And(dn1, dn2)),
                lambda: cx.eq(out[i, j], 0.0, scale=1.0)))
            cx.ensure("opposite beam directions", cx.implies(
                cx.Or(cx.And(up1, dn2), cx.And(dn1, up2)),
                lambda: out[i, j] == cx.inf))
            cx.ensure("one along the beam", cx.implies(
                cx.And(cx.Or(up1, dn1), x2 * x2 + y2 * y2 > 1e-3,
                       abs(z2) < 100.0),
                lambda: out[i, j] == cx.inf))


@contract("C05", "self distance", weight=2, uses=KERNELS,
          fns=[D + "delta_R", C + "_delta_R", C + "_delta_R_symmetric",
               M + "delta_R_aff"])
def self_distance(cx):
    n = cx.size("n")
    a = cx.momenta("a", n, kind="moving")
    p = cx.g.MomentumArray(a.arr)
    call = cx.pick("call", ["method", "delta_R_aff"])
    if call == "method":
        pseudo = cx.pick("pseudo", [True, False])
        threads = cx.pick("threads", [1] if cx.symbolic else [1, 2, 4])
        out = cx.quiet(lambda: p.delta_R(p, pseudo, threads))
        ref = cx.quiet(lambda: p.delta_R(p.copy(), pseudo, threads))
    else:
        pseudo = True
        out = cx.quiet(lambda: cx.g.matrix.delta_R_aff(p))
        ref = cx.quiet(lambda: p.delta_R(p.copy()))
    cx.ensure_shape("self", out, (n, n))
    cx.ensure_shape("copy", ref, (n, n))
    for i in cx.each(n, "i"):
        x, y, z, e = row(a, i)
        cx.ensure("zero diagonal", cx.implies(
            True if pseudo else e >= abs(z),
            lambda: cx.eq(out[i, i], 0.0, scale=1.0)))
        for j in cx.each(n, "j"):
            ra, rb = row(a, i), row(a, j)
            if cx.concrete and not pseudo and (
                    ra[3] < abs(ra[2]) or rb[3] < abs(rb[2])):
                continue
            if cx.symbolic and not pseudo:
                cx.assume_here(ra[3] > abs(ra[2]))
                cx.assume_here(rb[3] > abs(rb[2]))
            cx.ensure("symmetric", cx.eq(out[i, j], out[j, i], scale=1e-6))
            cx.ensure("same as with an equal copy",
                      cx.eq(out[i, j], ref[i, j], scale=1e-6),
                      lambda: f"{out[i, j]} != {ref[i, j]} at {ra}, {rb}")
            # for all inputs it follows from "pairs"
            if cx.concrete and not pair_excluded(cx, ra, rb, pseudo):
                cx.ensure("the distance of every pair",
                          dr_ok(cx, out[i, j], ra, rb, pseudo))
    cx.unchanged("operand", a)


@contract("C05", "weighted distance", uses=KERNELS,
          fns=[M + "parton_hadron_distance", D + "delta_R"])
def weighted_distance(cx):
    n, k = cx.size("n"), cx.size("m")
    a = cx.momenta("a", n, kind="transverse")
    b = cx.momenta("b", k, kind="transverse")
    pe = cx.real("pt_exp", -2, 2, special=(0.0, -0.1, 1.0, -1.0))
    use_default = cx.pick("default", [False, True])
    p, q = cx.g.MomentumArray(a.arr), cx.g.MomentumArray(b.arr)
    if use_default:
        out = cx.g.matrix.parton_hadron_distance(p, q)
        pe = -0.1
    else:
        out = cx.g.matrix.parton_hadron_distance(p, q, pe)
    cx.ensure_shape("distance", out, (n, k))
    dist = p.delta_R(q) if cx.symbolic else None
    for i in cx.each(n, "i"):
        for j in cx.each(k, "j"):
            ra, rb = row(a, i), row(b, j)
            if cx.symbolic:
                cx.assume_here(ra[0] * ra[0] + ra[1] * ra[1] > 0)
                cx.assume_here(rb[0] * rb[0] + rb[1] * rb[1] > 0)
                pt = cx.sqrt(ra[0] * ra[0] + ra[1] * ra[1])
                # what delta_R itself returns is the contract "pairs"
                cx.ensure("pt^pt_exp * delta R", cx.eq(
                    out[i, j], cx.power(pt, pe) * dist[i, j]))
            else:
                w = ((ra[0] ** 2 + ra[1] ** 2) ** 0.5) ** pe
                cx.ensure("pt^pt_exp * delta R",
                          dr_ok(cx, out[i, j] / w, ra, rb, True))
    cx.unchanged("first", a)
    cx.unchanged("second", b)


# ------------------------------------------------------------------ C06
def axis_of(cx, theta, phi):
    return (cx.sin(theta) * cx.cos(phi), cx.sin(theta) * cx.sin(phi),
            cx.cos(theta))


def rotate(cx, n, a, p):
    """Right-handed rotation of p by a about the unit vector n."""
    c, s = cx.cos(a), cx.sin(a)
    d = n[0] * p[0] + n[1] * p[1] + n[2] * p[2]
    cr = (n[1] * p[2] - n[2] * p[1], n[2] * p[0] - n[0] * p[2],
          n[0] * p[1] - n[1] * p[0])
    return tuple(p[i] * c + cr[i] * s + n[i] * d * (1.0 - c)
                 for i in range(3))


@contract("C06", "rotation_matrix",
          fns=[T + "rotation_matrix", T + "_angles_to_axis",
               C + "_angles_to_axis", T + "_cos_sin"])
def rotation_matrix(cx):
    a = cx.real("angle", -7, 7)
    th, ph = cx.real("theta", -4, 4), cx.real("phi", -4, 4)
    ax = cx.g.transform.SphericalAngle(th, ph)
    r = cx.g.transform.rotation_matrix(a, ax)
    cx.ensure_shape("matrix", r, (3, 3))
    n = axis_of(cx, th, ph)
    basis = ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))
    for j in range(3):
        col = rotate(cx, n, a, basis[j])
        for i in range(3):
            cx.ensure(f"right-handed rotation [{i},{j}]",
                      cx.eq(r[i, j], col[i], scale=1.0))
    for i in range(3):
        for j in range(3):
            dot = sum(r[i, k] * r[j, k] for k in range(3))
            cx.ensure(f"orthogonal [{i},{j}]",
                      cx.eq(dot, 1.0 if i == j else 0.0, scale=1.0))
        fixed = sum(r[i, k] * n[k] for k in range(3))
        cx.ensure(f"fixes its axis [{i}]", cx.eq(fixed, n[i], scale=1.0))
    det = (r[0, 0] * (r[1, 1] * r[2, 2] - r[1, 2] * r[2, 1])
           - r[0, 1] * (r[1, 0] * r[2, 2] - r[1, 2] * r[2, 0])
           + r[0, 2] * (r[1, 0] * r[2, 1] - r[1, 1] * r[2, 0]))
    cx.ensure("determinant 1", cx.eq(det, 1.0, scale=1.0))


@contract("C06", "split_momentum", weight=1.5,
          fns=[T + "split_momentum", T + "rotation_matrix",
               T + "_momentum_to_numpy"])
def split_momentum(cx):
    m = cx.momenta("p", 1)
    z = cx.real("z", 0.0, 1.0, special=(0.5, 0.25, 0.1))
    a = cx.real("angle", -7, 7)
    th, ph = cx.real("theta", -4, 4), cx.real("phi", -4, 4)
    named = cx.pick("axis type", ["named", "tuple"])
    ax = cx.g.transform.SphericalAngle(theta=th, phi=ph) \
        if named == "named" else (th, ph)
    p = cx.g.MomentumArray(m.arr)
    out = cx.g.transform.split_momentum(p, z, a, ax)
    cx.ensure("a MomentumArray", type(out) is cx.g.MomentumArray)
    cx.ensure_len("children", out, 2)
    x, y, pz, e = row(m, 0)
    sc = abs(x) + abs(y) + abs(pz) + abs(e)
    for j, c in enumerate(("x", "y", "z", "energy")):
        got = getattr(out, c)
        cx.ensure(f"the children sum to the parent ({c})",
                  cx.eq(got[0] + got[1], m.at(0, j), scale=sc))
    cx.ensure("energy of the first child",
              cx.eq(out.energy[0], z * e, scale=sc))
    rp = rotate(cx, axis_of(cx, th, ph), a, (x, y, pz))
    for j, c in enumerate(("x", "y", "z")):
        cx.ensure(f"momentum of the first child ({c})", cx.eq(
            getattr(out, c)[0], z * rp[j], scale=sc))
    cx.unchanged("parent", m)


@contract("C06", "split_momentum rejects many",
          fns=[T + "split_momentum"])
def split_rejects(cx):
    n = cx.size("n", lo=2)
    m = cx.momenta("p", n)
    err = cx.raises(ValueError, lambda: cx.g.transform.split_momentum(
        cx.g.MomentumArray(m.arr), 0.5, 0.1, (0.2, 0.3)))
    cx.ensure("ValueError for more than one momentum", err is not None)


def pt2(m, k):
    return m.at(k, 0) * m.at(k, 0) + m.at(k, 1) * m.at(k, 1)


def unique_extreme(cx, m, n, h, largest, margin):
    """h is the only element with the extreme pt (ties left open)."""
    def other(k):
        d = pt2(m, h) - pt2(m, k) if largest else pt2(m, k) - pt2(m, h)
        if cx.symbolic:
            return cx.Or(cx.same_index(k, h), d > 0)
        return k == h or d > 1e-9 * max(pt2(m, h), pt2(m, k))
    return cx.all(n, other)


@contract("C06", "split_hardest", weight=2,
          fns=[T + "split_hardest", T + "split_momentum"])
def split_hardest(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n)
    h = cx.index("hardest", n) if cx.symbolic else int(
        (m.snap[:, 0] ** 2 + m.snap[:, 1] ** 2).argmax())
    cx.assume(unique_extreme(cx, m, n, h, True, 1e-9))
    z = cx.real("z", 1e-3, 0.5, special=(0.5, 0.25))
    cx.assume(cx.And(z > 0, z <= 0.5))
    a = cx.real("angle", -4, 4)
    th, ph = cx.real("theta", -4, 4), cx.real("phi", -4, 4)
    named = cx.pick("axis type", ["named", "tuple"])
    ax = cx.g.transform.SphericalAngle(theta=th, phi=ph) \
        if named == "named" else (th, ph)
    p = cx.g.MomentumArray(m.arr)
    out = cx.g.transform.split_hardest(p, z, a, ax)
    cx.ensure("a MomentumArray", type(out) is cx.g.MomentumArray)
    cx.ensure_len("split", out, n + 1)
    names = ("x", "y", "z", "energy")
    for k in cx.each(n):
        for j, c in enumerate(names):
            got = getattr(out, c)
            cx.ensure(f"elements before the hardest stay ({c})", cx.implies(
                k < h, lambda: cx.same(got[k], m.at(k, j))))
            cx.ensure(f"elements after the hardest move up ({c})",
                      cx.implies(k > h, lambda: cx.same(got[k - 1],
                                                        m.at(k, j))))
    x, y, pz, e = row(m, h)
    sc = abs(x) + abs(y) + abs(pz) + abs(e)
    rp = rotate(cx, axis_of(cx, th, ph), a, (x, y, pz))
    for j, c in enumerate(names):
        got = getattr(out, c)
        cx.ensure(f"the children sum to the hardest ({c})",
                  cx.eq(got[n - 1] + got[n], m.at(h, j), scale=sc))
        want = z * e if j == 3 else z * rp[j]
        cx.ensure(f"the first child ({c})",
                  cx.eq(got[n - 1], want, scale=sc))
    cx.unchanged("operand", m)


@contract("C06", "split_hardest default axis",
          fns=[T + "split_hardest", T + "soft_hard_axis"])
def split_default(cx):
    n = cx.size("n", lo=2)
    m = cx.momenta("p", n, kind="physical")
    if cx.concrete:
        q = m.snap[:, 0] ** 2 + m.snap[:, 1] ** 2
        h, s = int(q.argmax()), int(q.argmin())
        cr = cx.np.cross(m.snap[s, :3], m.snap[h, :3])
        cx.assume(abs(cr).max() > 1e-6 * (abs(m.snap[s, :3]).max() *
                                          abs(m.snap[h, :3]).max() + 1e-9))
    else:
        h, s = cx.index("hardest", n), cx.index("softest", n)
    cx.assume(unique_extreme(cx, m, n, h, True, 1e-9))
    cx.assume(unique_extreme(cx, m, n, s, False, 1e-9))
    z = cx.real("z", 1e-3, 0.5)
    cx.assume(cx.And(z > 0, z <= 0.5))
    a = cx.real("angle", -4, 4)
    p = cx.g.MomentumArray(m.arr)
    ax = cx.g.transform.soft_hard_axis(p)
    out = cx.g.transform.split_hardest(p, z, a)
    ref = cx.g.transform.split_hardest(p, z, a, ax)
    cx.ensure_len("split", out, n + 1)
    for c in ("x", "y", "z", "energy"):
        u, v = getattr(out, c), getattr(ref, c)
        for k in cx.each(n + 1):
            cx.ensure("rotates about soft_hard_axis", cx.eq(u[k], v[k],
                                                            tol=1e-12))
    cx.unchanged("operand", m)


@contract("C06", "soft_hard_axis", weight=1.5,
          fns=[T + "soft_hard_axis", T + "_axis_to_angles"])
def soft_hard_axis(cx):
    n = cx.size("n", lo=2)
    m = cx.momenta("p", n, kind="physical")
    if cx.concrete:
        q = m.snap[:, 0] ** 2 + m.snap[:, 1] ** 2
        h, s = int(q.argmax()), int(q.argmin())
    else:
        h, s = cx.index("hardest", n), cx.index("softest", n)
    cx.assume(unique_extreme(cx, m, n, h, True, 1e-9))
    cx.assume(unique_extreme(cx, m, n, s, False, 1e-9))
    ph_, ps = row(m, h), row(m, s)
    cr = (ps[1] * ph_[2] - ps[2] * ph_[1], ps[2] * ph_[0] - ps[0] * ph_[2],
          ps[0] * ph_[1] - ps[1] * ph_[0])
    mag = cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]
    cx.assume(mag > (0.0 if cx.symbolic else 1e-6 * (
        sum(v * v for v in ps[:3]) * sum(v * v for v in ph_[:3]))))
    p = cx.g.MomentumArray(m.arr)
    ax = cx.g.transform.soft_hard_axis(p)
    th, ph = ax.theta, ax.phi
    d = axis_of(cx, th, ph)
    for name, q in (("softest", ps), ("hardest", ph_)):
        sc = abs(q[0]) + abs(q[1]) + abs(q[2])
        cx.ensure(f"the axis is orthogonal to the {name}", cx.eq(
            d[0] * q[0] + d[1] * q[1] + d[2] * q[2], 0.0, scale=sc,
            tol=1e-8))
    cx.unchanged("operand", m)


@contract("C06", "split_hardest domain", fns=[T + "split_hardest"])
def split_domain(cx):
    n = cx.size("n", lo=2)
    m = cx.momenta("p", n, kind="moving")
    z = cx.real("z", -2, 3, special=(0.0, 0.5, 0.75, 1.0, -0.25, 0.5000001))
    p = cx.g.MomentumArray(m.arr)
    cx.assume(cx.Not(cx.And(z > 0, z <= 0.5)))
    err = cx.raises(ValueError, lambda: cx.g.transform.split_hardest(
        p, z, 0.5, (0.1, 0.2)))
    cx.ensure("ValueError for z outside (0, 0.5]", err is not None)
    cx.unchanged("operand", m)


# ------------------------------------------------------------------ C08
@contract("C08", "combined_mass", weight=1.5, fns=[C + "combined_mass"])
def combined_mass(cx):
    n = cx.size("n")
    m = cx.momenta("p", n)
    how = cx.pick("weight", ["none", "array", "structured"])
    form = cx.pick("momenta as", ["container", "structured"])
    w = cx.floats("w", (n, 4), -3, 3) if how != "none" else None
    p = cx.g.MomentumArray(m.arr)
    arg = p if form == "container" else p.data
    f = cx.g.calculate.combined_mass
    if how == "none":
        got = f(arg)
    elif how == "array":
        got = f(arg, w.arr) if cx.pick("kw", [0, 1]) else f(
            arg, weight=w.arr)
    else:
        got = f(arg, cx.g.MomentumArray(w.fresh()).data) \
            if cx.concrete else f(arg, cx.g.MomentumArray(w.arr).data)

    def total(j):
        if w is None:
            return cx.sum(n, lambda k: m.at(k, j))
        return cx.sum(n, lambda k: w.at(k, j) * m.at(k, j))
    t = [total(j) for j in range(4)]
    psq = t[0] * t[0] + t[1] * t[1] + t[2] * t[2]
    msq = t[3] * t[3] - psq
    if cx.symbolic:
        want = cx.ite(msq < 0, 0.0, cx.sqrt(cx.ite(msq < 0, 0.0, msq)))
        cx.ensure("mass of the weighted sum", cx.eq(got, want))
    else:
        sc = t[3] * t[3] + psq
        sc += float(abs(m.snap * (1 if w is None else w.snap)).sum()) ** 2
        if abs(msq) > 1e-12 * sc or msq == 0:
            cx.ensure("mass of the weighted sum", cx.eq(
                got * got, max(msq, 0.0), scale=sc, tol=1e-12),
                f"{got} from {t}")
        if msq < -1e-12 * sc:
            cx.ensure("0.0 for a space-like sum", got == 0.0)
        cx.ensure("not negative", got >= 0.0)
    cx.unchanged("operand", m)
    if w is not None:
        cx.unchanged("weights", w)


@contract("C08", "aggregate_momenta", weight=1.5,
          fns=[C + "aggregate_momenta", D + "__getitem__",
               "graphicle.data._array_ufunc"],
          bound="at most 3 masks in the symbolic contract")
def aggregate(cx):
    n = cx.size("n", lo=1)
    c = cx.pick("masks", [1, 2, 3] if cx.symbolic else [1, 2, 3, 5])
    m = cx.momenta("p", n)
    masks = [cx.bools(f"b{i}", n) for i in range(c)]
    form = cx.pick("form", ["list", "tuple", "generator", "group"])
    p = cx.g.MomentumArray(m.arr)
    ms = [cx.g.MaskArray(b.arr) for b in masks]
    if form == "tuple":
        ms = tuple(ms)
    elif form == "generator":
        ms = iter(ms)
    elif form == "group":
        ms = cx.g.MaskGroup({f"m{i}": b for i, b in enumerate(ms)}).values()
    out = cx.g.calculate.aggregate_momenta(p, ms)
    cx.ensure("a MomentumArray", type(out) is cx.g.MomentumArray)
    cx.ensure_len("one momentum per mask", out, c)
    for i in range(c):
        for j, name in enumerate(("x", "y", "z", "energy")):
            want = cx.sum(n, lambda k: cx.ite(masks[i].at(k), m.at(k, j),
                                              0.0))
            sc = float(abs(m.snap).sum()) if cx.concrete else 0.0
            cx.ensure("the sum of exactly the selected particles",
                      cx.eq(getattr(out, name)[i], want, scale=sc))
    cx.unchanged("operand", m)
    for i, b in enumerate(masks):
        cx.unchanged(f"mask {i}", b)


@contract("C08", "resultant_coords", fns=[C + "resultant_coords"])
def resultant(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n, kind="timelike", tiny=False)
    t = [cx.sum(n, lambda k: m.at(k, j)) for j in range(4)]
    cx.assume(t[0] * t[0] + t[1] * t[1] > 1e-4)
    cx.assume(t[3] - abs(t[2]) > 1e-6)
    p = cx.g.MomentumArray(m.arr)
    default = cx.pick("args", ["default", "true", "false"])
    f = cx.g.calculate.resultant_coords
    rap, phi = (f(p) if default == "default" else
                f(p, True) if default == "true" else f(p, pseudo=False))
    if default == "false":
        want = rap_of(cx, t[2], t[3])
    else:
        want = eta_of(cx, t[0], t[1], t[2])
    cx.ensure("(pseudo)rapidity of the sum", cx.eq(rap, want, tol=1e-6,
                                                   scale=1.0))
    cx.ensure("azimuth of the sum",
              cx.eq(phi, cx.atan2(t[1], t[0])) if cx.symbolic else
              cx.angle_eq(phi, cx.atan2(t[1], t[0]), 1e-6))
    cx.unchanged("operand", m)


@contract("C08", "weighted_centroid", fns=[C + "weighted_centroid"])
def centroid(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n, kind="transverse", tiny=False)
    pseudo = cx.pick("pseudo", [True, False])
    if cx.concrete:
        for k in range(n):
            x, y, z, e = row(m, k)
            cx.assume(pseudo or e - abs(z) > 1e-6)
    else:
        cx.forall(n, lambda k: pt2(m, k) > 1e-6)
        if not pseudo:
            cx.forall(n, lambda k: m.at(k, 3) - abs(m.at(k, 2)) > 1e-6)
    p = cx.g.MomentumArray(m.arr)
    rap, phi = cx.g.calculate.weighted_centroid(p, pseudo)

    def pt(k):
        return cx.sqrt(pt2(m, k))
    tot = cx.sum(n, pt)

    def r(k):
        x, y, z, e = row(m, k)
        return eta_of(cx, x, y, z) if pseudo else rap_of(cx, z, e)
    want = cx.sum(n, lambda k: pt(k) * r(k)) / tot
    az = cx.sum(n, lambda k: pt(k) * cx.atan2(m.at(k, 1), m.at(k, 0))) / tot
    cx.ensure("pt-weighted (pseudo)rapidity",
              cx.eq(rap, want, scale=1.0, tol=1e-6))
    if cx.symbolic:
        cx.ensure("pt-weighted azimuth, wrapped",
                  cx.eq(phi, cx.atan2(cx.sin(az), cx.cos(az))))
    else:
        cx.ensure("pt-weighted azimuth", cx.angle_eq(phi, az, 1e-6))
        cx.ensure("azimuth wrapped", abs(phi) <= cx.pi + 1e-12)
    cx.unchanged("operand", m)


# ------------------------------------------------------------------ C18
@contract("C18", "centroid_prune", weight=2, fns=[S + "centroid_prune"])
def centroid_prune(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n, kind="transverse", tiny=False)
    masked = cx.pick("masked", [False, True])
    centred = cx.pick("centred", [True, False])
    radius = cx.real("radius", 0.0, 4.0, special=(0.4, 1.0))
    sel = cx.bools("mask", n) if masked else None
    if cx.symbolic:
        cx.forall(n, lambda k: pt2(m, k) > 1e-6)
    use = (lambda k: sel.at(k)) if masked else (lambda k: True)
    if centred:
        ce, cp = cx.real("eta0", -3, 3), cx.real("phi0", -7, 7)
    else:
        t = [cx.sum(n, lambda k: cx.ite(use(k), m.at(k, j), 0.0))
             for j in range(4)]
        cx.assume(t[0] * t[0] + t[1] * t[1] > 1e-4)
        ce, cp = eta_of(cx, t[0], t[1], t[2]), cx.atan2(t[1], t[0])
    p = cx.g.MomentumArray(m.arr)
    mask_arg = cx.g.MaskArray(sel.arr) if masked else None
    f = cx.g.select.centroid_prune
    if masked and centred:
        out = f(p, radius, mask_arg, (ce, cp))
    elif masked:
        out = f(p, radius, mask_arg)
    elif centred:
        out = f(p, radius, centre=(ce, cp))
    else:
        out = f(p, radius)
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_len("over the full input", out, n)
    for k in cx.each(n):
        x, y, z, e = row(m, k)
        if cx.symbolic:
            dphi = cx.atan2(y * cx.cos(cp) - x * cx.sin(cp),
                            x * cx.cos(cp) + y * cx.sin(cp))
            dist = cx.hypot(eta_of(cx, x, y, z) - ce, dphi)
            cx.ensure("kept exactly when masked and within the radius",
                      cx.iff(out.data[k], cx.And(use(k), dist < radius)))
        else:
            dphi = cx.wrap(cx.atan2(y, x) - cp)
            dist = ((eta_of(cx, x, y, z) - ce) ** 2 + dphi ** 2) ** 0.5
            if abs(dist - radius) > 1e-7:
                cx.ensure("kept exactly when masked and within the radius",
                          bool(out.data[k]) == (bool(use(k)) and
                                                dist < radius),
                          f"distance {dist}, radius {radius}, {row(m, k)}")
    cx.unchanged("operand", m)
    if masked:
        cx.unchanged("mask", sel)


@contract("C18", "prune type check", fns=[S + "centroid_prune"])
def prune_type(cx):
    n = cx.size("n", lo=1)
    m = cx.momenta("p", n, kind="transverse")
    err = cx.raises(ValueError, lambda: cx.g.select.centroid_prune(
        m.arr, 0.5))
    cx.ensure("ValueError unless given a MomentumArray", err is not None)
