"""C19 cluster tagging and C23 jet clustering."""
import itertools as it
import math

from vc.contract import contract

S = "graphicle.select."
K = "graphicle.calculate."
WHY19 = ("the optimum over all assignments is decided by "
         "scipy.optimize.linear_sum_assignment, which is outside /repo; the "
         "cost matrix it is given is under contract (C19.cost matrix)")
WHY23 = ("the clustering itself is the compiled FastJet library behind "
         "awkward arrays; no contract of these is within reach of the "
         "verifier")


def gauss_costs(cx, f, c):
    """The documented costs: minus a Gaussian of each of the distance and
    the pt difference, as wide as their spread over the candidates."""
    n, m = len(f), len(c)

    def rap(p):
        return math.atanh(p[2] / p[3])

    def pt(p):
        return math.hypot(p[0], p[1])

    def dr(p, q):
        d = math.atan2(p[1], p[0]) - math.atan2(q[1], q[0])
        d = math.atan2(math.sin(d), math.cos(d))
        return math.hypot(rap(p) - rap(q), d)

    def var(v):
        mu = math.fsum(v) / len(v)
        return math.fsum((x - mu) ** 2 for x in v) / len(v)

    def recip(v, scale):
        return 1.0 / v if v > 1e-24 * scale ** 2 else 0.0
    pts = [pt(q) for q in c]
    rpt = recip(var(pts), max(pts))
    out = []
    for p in f:
        row = [dr(p, q) for q in c]
        rdr = recip(var(row), max(max(row), 1e-9))
        out.append([-(math.expm1(-0.5 * rdr * d * d) +
                      math.expm1(-0.5 * rpt * (pt(p) - pq) ** 2))
                    for d, pq in zip(row, pts)])
    return out


def draw_hard(cx, name, n):
    """Momenta with pt > 0 and |z| < E, well away from both limits."""
    if cx.symbolic:
        p = cx.momenta(name, n, "timelike")
        return p
    import numpy as np
    from vc.concrete import CIn
    rng = cx.rng

    def make():
        out = np.empty((n, 4))
        for i in range(n):
            pt, phi = rng.uniform(0.5, 9), rng.uniform(-math.pi, math.pi)
            y, m = rng.normal() * 1.5, rng.uniform(0, 3)
            if rng.random() < 0.2:
                pt, phi = float(rng.integers(1, 5)), 0.0
            mt = math.hypot(pt, m)
            out[i] = (pt * math.cos(phi), pt * math.sin(phi),
                      mt * math.sinh(y), mt * math.cosh(y))
        if n > 1 and rng.random() < 0.15:
            out[rng.integers(0, n)] = out[rng.integers(0, n)]
        return out
    return CIn(np.array(cx._draw(name, make)).reshape(n, 4))


def spread_ok(costs, c):
    """The spreads are not rounding noise around zero."""
    return all(math.isfinite(v) for r in costs for v in r)


@contract("C19", "arg_closest", mode="concrete", why=WHY19, weight=3,
          fns=[S + "arg_closest", K + "_assignment_cost"])
def arg_closest(cx):
    m = cx.size("candidates", lo=1, hi=6)
    n = cx.size("focus", lo=1, hi=m)
    f, c = draw_hard(cx, "f", n), draw_hard(cx, "c", m)
    M = cx.g.MomentumArray
    focus, cand = M(f.arr), M(c.arr)
    kw = {}
    t = cx.pick("threads", [None, 1, 2])
    if t:
        kw["num_threads"] = t
    reads = {}
    if cx.bool("read before"):
        reads = {(i, k): getattr(o, k) for i, o in enumerate((focus, cand))
                 for k in ("rapidity", "pt", "eta", "phi", "_xy_pol")}
    kept = {k: v.tobytes() for k, v in reads.items()}
    out = cx.g.select.arg_closest(focus, cand, **kw)
    cx.ensure("one candidate per focus", isinstance(out, list) and
              len(out) == n and all(type(i) is int for i in out), f"{out}")
    cx.ensure("distinct candidates", len(set(out)) == n and
              all(0 <= i < m for i in out), f"{out}")
    costs = gauss_costs(cx, f.snap.tolist(), c.snap.tolist())
    cx.assume(spread_ok(costs, c))
    total = math.fsum(costs[i][j] for i, j in enumerate(out))
    best = min(math.fsum(costs[i][j] for i, j in enumerate(p))
               for p in it.permutations(range(m), n))
    cx.ensure("minimum total cost", total <= best + 1e-7,
              f"{total} > {best} with {out}")
    cx.unchanged("focus", f)
    cx.unchanged("candidates", c)
    for k, v in reads.items():
        cx.ensure("arrays read before are unchanged", v.tobytes() == kept[k],
                  str(k))
    for i, o in enumerate((focus, cand)):
        fresh = M((f, c)[i].fresh())
        for k in ("rapidity", "pt", "eta", "phi"):
            cx.ensure("observables are unchanged",
                      cx.same_bytes(getattr(o, k), getattr(fresh, k)), k)


@contract("C19", "cost matrix", fns=[K + "_assignment_cost"], weight=1,
          private=True, mode="concrete", why="np.var over rows of unbounded length and "
          "an in-place update of the rows it was taken over")
def cost_matrix(cx):
    n, m = cx.size("n", hi=5), cx.size("m", lo=1, hi=7)
    f, c = draw_hard(cx, "f", n), draw_hard(cx, "c", m)
    M = cx.g.MomentumArray
    a, b = M(f.arr), M(c.arr)
    cost = cx.private("calculate._assignment_cost", 4)(
        a.rapidity, b.rapidity.copy(), a._xy_pol, b._xy_pol)
    want = gauss_costs(cx, f.snap.tolist(), c.snap.tolist())
    cx.ensure("shape", cost.shape == (n, m))
    for i in range(n):
        for j in range(m):
            cx.ensure("the documented cost",
                      abs(cost[i, j] - want[i][j]) <= 1e-6,
                      f"{cost[i, j]} != {want[i][j]}")


NAMES = {21: "g", 22: "gamma", 11: "e-", -11: "e+", 24: "W+", -24: "W-",
         6: "t", -6: "t~", 5: "b", -5: "b~", 25: "H0", 1: "d", -1: "d~",
         2: "u", -2: "u~"}


@contract("C19", "monte_carlo_tag", mode="concrete", why=WHY19, weight=3,
          fns=[S + "monte_carlo_tag", S + "_pdgs_to_keys"])
def tag(cx):
    import numpy as np
    rng, g = cx.rng, cx.g
    n = cx.size("n", lo=1, hi=10)
    p = draw_hard(cx, "p", n)
    pdg = cx.ints("pdg", n, "<i4", pool=list(NAMES), lo=1, hi=2)
    status = cx.ints("status", n, "<i2",
                     pool=[-21, 22, -22, 23, 23, -23, 24, 1, 2, 62], lo=1,
                     hi=2)
    fin = cx.bools("final", n)
    kw = {}
    inter = cx.pick("intermediate", [None, True, False])
    outg = cx.pick("outgoing", [None, True, True, False])
    signed = cx.pick("signed", [None, True, False])
    if inter is not None:
        kw["intermediate"] = inter
    if outg is not None:
        kw["outgoing"] = outg
    if signed is not None:
        kw["sign_sensitive"] = signed
    lists = [None, None, [21], [-24], [24], [5, -6], [-5, 11], [21, 1, 2, 5],
             (6,), [1, -2, 22]]
    black, white = cx.pick("blacklist", lists), cx.pick("whitelist", lists)
    if black is not None and white is not None and cx.rng.random() < 0.7:
        white = None
    if black is not None:
        kw["blacklist"] = black
    if white is not None:
        kw["whitelist"] = white
    ps = g.ParticleSet(pdg=g.PdgArray(pdg.arr), pmu=g.MomentumArray(p.arr),
                       status=g.StatusArray(status.arr),
                       final=g.MaskArray(fin.arr))
    m = cx.size("masks", lo=0, hi=5)
    over = None
    if cx.bool("own momenta"):
        over = draw_hard(cx, "q", cx.size("nq", lo=1, hi=8))
        kw["clustered_pmu"] = g.MomentumArray(over.arr)
        base = over.snap
    else:
        base = p.snap[fin.snap]
    L = len(base) + (1 if cx.int("wrong", 0, 9) == 0 else 0)
    marr = cx.bools("cl", (m, L))
    masks = [g.MaskArray(r.copy()) for r in marr.snap]
    # ------------------------------------------------- what should happen
    want_out, want_in = outg is not False, inter is True
    sel = [k for k in range(n)
           if (want_out and abs(status.at(k)) == 23) or
           (want_in and abs(status.at(k)) == 22)]
    # diffractive partons (|status| 24) belong to neither portion
    exc = None
    if m == 0 or not (want_out or want_in) or (black and white):
        exc = ValueError
    else:
        filt = black or white
        if filt:
            s = signed is True

            def match(v):
                return v in filt if s else abs(v) in [abs(t) for t in filt]
            sel = [k for k in sel if match(pdg.at(k)) == (white is not None)]
            if not sel:
                exc = IndexError
        if exc is None and (m < len(sel) or L != len(base)):
            exc = ValueError
    kwcopy = dict(kw)

    def call():
        return g.select.monte_carlo_tag(ps, masks, **kwcopy)
    if exc is not None:
        e = cx.raises((ValueError, IndexError), call)
        cx.ensure("the documented error", type(e) is exc,
                  f"{e!r}, not {exc}")
        return
    cx.assume(len(sel) > 0)
    sums = [base[r].sum(axis=0) for r in marr.snap]
    cx.assume(all(r.any() for r in marr.snap))
    costs = gauss_costs(cx, p.snap[sel].tolist(), [s.tolist() for s in sums])
    cx.assume(spread_ok(costs, sums))
    out = call()
    cx.ensure("a MaskGroup", type(out) is g.MaskGroup)
    cx.ensure("aggregated by or", str(out.agg_op).lower().endswith("or"))
    names = [str(x) for x in g.PdgArray(pdg.snap[sel]).name]
    keys = list(out.keys())
    cx.ensure("one entry per parton", len(keys) == len(sel),
              f"{keys} for {names}")
    for key, name in zip(keys, names):
        if names.count(name) == 1:
            cx.ensure("named after the parton", key == name, key)
        else:
            cx.ensure("named after the parton",
                      key.split(":")[0] == name, key)
    vals = list(out.values())
    idx = [[j for j in range(m) if masks[j] is v or
            (v.data == marr.snap[j]).all()] for v in vals]
    cx.ensure("each entry is a cluster mask", all(idx))
    best = min((math.fsum(costs[i][j] for i, j in enumerate(q))
                for q in it.permutations(range(m), len(sel))))
    got = min((math.fsum(costs[i][j] for i, j in enumerate(q))
               for q in it.product(*idx) if len(set(q)) == len(q)),
              default=math.inf)
    cx.ensure("assigned at minimum total cost", got <= best + 1e-7,
              f"{got} > {best}")
    for mk, r in zip(masks, marr.snap):
        cx.ensure("cluster masks unchanged", (mk.data == r).all())
    cx.unchanged("momenta", p)
    cx.unchanged("codes", pdg)
    cx.unchanged("status", status)
    cx.unchanged("final", fin)


# ------------------------------------------------------------------ C23
@contract("C23", "fastjet_clusters", mode="concrete", why=WHY23, weight=3,
          fns=[S + "fastjet_clusters"])
def clusters(cx):
    import numpy as np
    import fastjet as fj
    g = cx.g
    n = cx.size("n", lo=1, hi=14)
    p = draw_hard(cx, "p", n)
    R = cx.pick("radius", [0.2, 0.4, 0.8, 1.0, 1.5])
    pv = cx.pick("p_val", [-1, 0, 1, -0.5, 0.5, 2.0, -1.0, 1.0, 0.0])
    ptc = cx.pick("pt_cut", [None, None, 0.0, 1.0, 4.0, 9.0])
    etac = cx.pick("eta_cut", [None, None, 0.5, 1.0, 2.5, 0.0])
    k = cx.pick("top_k", [None, None, 1, 2, 3, 50])
    kw = {a: v for a, v in dict(pt_cut=ptc, eta_cut=etac, top_k=k).items()
          if v is not None}
    pmu = g.MomentumArray(p.arr)
    out = g.select.fastjet_clusters(pmu, R, pv, **kw)
    cx.ensure("a list of MaskArrays", isinstance(out, list) and
              all(type(m) is g.MaskArray for m in out))
    cx.ensure("over the input particles",
              all(m.data.shape == (n,) and m.data.dtype == np.bool_
                  for m in out))
    tot = sum((m.data.astype(int) for m in out), np.zeros(n, int))
    cx.ensure("masks are disjoint", (tot <= 1).all())
    cx.ensure("masks are not empty", all(m.data.any() for m in out))
    jets = [p.snap[m.data].sum(axis=0) for m in out]
    pts = [math.hypot(j[0], j[1]) for j in jets]
    cx.ensure("descending jet pt",
              all(a >= b - 1e-9 * (1 + a) for a, b in zip(pts, pts[1:])),
              f"{pts}")
    # the same clustering, asked of the library particle by particle
    algo = {-1: fj.antikt_algorithm, 0: fj.cambridge_algorithm,
            1: fj.kt_algorithm}.get(pv)
    jd = fj.JetDefinition(algo, R) if algo is not None else \
        fj.JetDefinition(fj.genkt_algorithm, R, float(pv))
    parts = []
    for i, (x, y, z, e) in enumerate(p.snap.tolist()):
        q = fj.PseudoJet(x, y, z, e)
        q.set_user_index(i)
        parts.append(q)
    seq = fj._swig.ClusterSequence(parts, jd) if hasattr(fj, "_swig") else \
        fj.ClusterSequence(parts, jd)
    want = []
    for j in seq.inclusive_jets(ptc or 0.0):
        if etac is not None and not abs(j.eta()) < etac:
            continue
        want.append((j.pt(), frozenset(c.user_index()
                                       for c in j.constituents())))
    want.sort(key=lambda t: -t[0])
    gaps = [a[0] - b[0] for a, b in zip(want, want[1:])]
    cx.assume(all(d > 1e-9 * want[0][0] for d in gaps))
    if k is not None:
        want = want[:k]
    got = [frozenset(np.flatnonzero(m.data).tolist()) for m in out]
    cx.ensure("exactly the constituents of the jets which pass",
              got == [w[1] for w in want], f"{got} != {want}")
    cx.unchanged("momenta", p)


@contract("C23", "fastjet_clusters errors", fns=[S + "fastjet_clusters"],
          weight=0.3, mode="concrete", why=WHY23)
def cluster_errors(cx):
    g = cx.g
    n = cx.size("n", lo=1, hi=5)
    p = draw_hard(cx, "p", n)
    R, kw = 0.6, {}
    what = cx.pick("what", ["radius", "pt_cut", "eta_cut", "top_k0",
                            "top_k-", "top_kf"])
    neg = -abs(cx.real("by")) - 1e-6
    if what == "radius":
        R = neg
    elif what in ("pt_cut", "eta_cut"):
        kw[what] = neg
    else:
        kw["top_k"] = {"top_k0": 0, "top_k-": -2, "top_kf": 1.5}[what]
    e = cx.raises(ValueError, lambda: g.select.fastjet_clusters(
        g.MomentumArray(p.arr), R, cx.pick("p_val", [-1, 0, 1, 0.5]), **kw))
    cx.ensure("raises ValueError", e is not None)
    cx.unchanged("momenta", p)


@contract("C19", "assignment", weight=1,
          fns=[S + "arg_closest", K + "_assignment_cost"])
def assignment(cx):
    """The matrix handed to the solver holds the documented costs and what
    the solver answers is what is returned."""
    m = cx.size("candidates", lo=1)
    n = cx.size("focus", lo=1) if cx.symbolic else cx.size(
        "focus", lo=1, hi=m)
    cx.assume(n <= m)
    f, c = draw_hard(cx, "f", n), draw_hard(cx, "c", m)
    M = cx.g.MomentumArray
    focus, cand = M(f.arr), M(c.arr)
    dist = []
    with cx.assignments() as calls, cx.opaque_matrix(
            K + "_delta_R", (n, m)) as dist:
        out = cx.g.select.arg_closest(focus, cand)
    cx.ensure("a list", type(out) is list)
    cx.ensure_len("one candidate per focus element", out, n)
    for i in cx.each(n):
        cx.ensure("a candidate", cx.And(0 <= out[i], out[i] < m))
        for k in cx.each(n):
            cx.ensure("distinct candidates", cx.implies(
                k < i, cx.Not(out[i] == out[k])))
    cx.unchanged("focus", f)
    cx.unchanged("candidates", c)
    if cx.concrete:
        return          # C19.arg_closest compares the total cost
    cx.needs(len(calls) == 1, "one assignment is solved")
    cost, maximize, cols = calls[0]
    cx.needs(not maximize, "an assignment of least cost")
    cx.ensure_shape("a cost for each pair", cost, (n, m))
    # the distance matrix is an arbitrary one here (C05 decides which)
    cx.needs(len(dist) == 1, "one distance matrix")
    (rap_f, rap_c, pol_f, pol_c), dist = dist[0]
    a, b = M(f.arr), M(c.arr)
    for i in cx.each(n):
        cx.ensure("true rapidities", cx.same(rap_f[i], a.rapidity[i]))
        cx.ensure("transverse components", cx.eq(pol_f[i], a._xy_pol[i]))
    for j in cx.each(m):
        cx.ensure("true rapidities", cx.same(rap_c[j], b.rapidity[j]))
        cx.ensure("transverse components", cx.eq(pol_c[j], b._xy_pol[j]))
    pt = lambda p, i: cx.hypot(p.at(i, 0), p.at(i, 1))

    def spread(val):
        mean = cx.sum(m, val) / cx.real_of(m)
        return cx.sum(m, lambda j: (val(j) - mean) ** 2) / cx.real_of(m)

    def recip(v):
        return cx.ite(v > 0, 1 / v, cx.real_of(0))
    rpt = recip(spread(lambda j: pt(c, j)))
    for i in cx.each(n):
        cx.ensure("the chosen candidate", out[i] == cols[i])
        rdr = recip(spread(lambda j: dist[i, j]))
        for j in cx.each(m):
            d, dpt = dist[i, j], pt(f, i) - pt(c, j)
            want = -(cx.expm1(-0.5 * rdr * d * d) +
                     cx.expm1(-0.5 * rpt * dpt * dpt))
            cx.ensure("the documented cost",
                      cx.eq(cost[i, j], want))
