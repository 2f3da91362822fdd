"""C14 PDG and status queries, C20 adjacency builders."""
from vc.contract import contract

from .containers import PDGS, STATUS

GD = "graphicle.data."
M = "graphicle.matrix."


# ------------------------------------------------------------------ C14
@contract("C14", "pdg mask", weight=2, fns=[GD + "PdgArray.mask"])
def pdg_mask(cx):
    n = cx.size("n")
    a = cx.ints("pdg", n, "<i4", -30, 30, pool=PDGS)
    t = cx.pick("target", [[], [21], [1, -1], [-5], [5, 11], [-11, 5],
                           [1, 2, 3, 4, 5, 6], [-24, 24, 25], [0],
                           [22, 22, -211], [-6, -5, 5]])
    form = cx.pick("form", ["list", "tuple", "array", "scalar"])
    blacklist = cx.pick("blacklist", ["default", True, False])
    signed = cx.pick("sign_sensitive", ["default", True, False])
    if form == "scalar":
        if len(t) != 1:
            t = [-11]
        arg = t[0]
    else:
        arg = {"list": list(t), "tuple": tuple(t),
               "array": cx.np.array(t, dtype="<i4")}[form]
    kw = {}
    if blacklist != "default":
        kw["blacklist"] = blacklist
    if signed != "default":
        kw["sign_sensitive"] = signed
    out = cx.g.PdgArray(a.arr).mask(arg, **kw)
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_len("one entry per particle", out, n)
    for k in cx.each(n):
        v = a.at(k)
        if signed is True:
            found = cx.Or(False, *[v == c for c in t])
        else:
            found = cx.Or(False, *[cx.Or(v == c, v == -c) for c in t])
        want = found if blacklist is False else cx.Not(found)
        cx.ensure("exactly the matching particles",
                  cx.iff(out.data[k], want))
    cx.unchanged("codes", a)
    if form == "array":
        cx.ensure("the targets are unchanged",
                  cx.np.array_equal(arg, t) if cx.concrete else True)


@contract("C14", "pdg mask of any targets", weight=1.5,
          fns=[GD + "PdgArray.mask"])
def pdg_mask_any(cx):
    """Targets of unbounded number."""
    n, m = cx.size("n"), cx.size("m")
    a = cx.ints("pdg", n, "<i4", -30, 30, pool=PDGS)
    t = cx.ints("target", m, "<i4", -30, 30, pool=PDGS)
    blacklist = cx.pick("blacklist", [True, False])
    signed = cx.pick("sign_sensitive", [True, False])
    out = cx.g.PdgArray(a.arr).mask(t.arr, blacklist, signed)
    cx.ensure_len("one entry per particle", out, n)
    for k in cx.each(n):
        v = a.at(k)
        if signed:
            found = cx.any(m, lambda j: t.at(j) == v)
        else:
            found = cx.any(m, lambda j: cx.Or(t.at(j) == v,
                                              t.at(j) == -v))
        want = cx.Not(found) if blacklist else found
        cx.ensure("exactly the matching particles",
                  cx.iff(out.data[k], want))
    cx.unchanged("codes", a)
    cx.unchanged("targets", t)


@contract("C14", "status range", weight=1.5,
          fns=[GD + "StatusArray.in_range"])
def in_range(cx):
    n = cx.size("n")
    a = cx.ints("status", n, "<i2", -100, 100, pool=STATUS)
    lo = cx.int("min", -100, 100, special=(0, 80, 21, -11))
    hi = cx.int("max", -100, 110, special=(90, 24, 0))
    if cx.concrete and cx.rng.random() < 0.3 and n:
        lo = cx.drawn["min"] = abs(int(a.snap[0]))
    upper = cx.pick("upper", [True, False, "none"])
    signed = cx.pick("sign_sensitive", ["default", True, False])
    default_min = cx.pick("default min", [False, True])
    s = cx.g.StatusArray(a.arr)
    kw = {}
    if default_min:
        lo = 0
    else:
        kw["min_status"] = lo
    if upper is True:
        kw["max_status"] = hi
    elif upper == "none":
        kw["max_status"] = None
    if signed != "default":
        kw["sign_sensitive"] = signed
    out = s.in_range(**kw)
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_len("one entry per particle", out, n)
    for k in cx.each(n):
        v = a.at(k)
        if signed is not True:
            v = cx.ite(v < 0, -v, v)
        want = cx.And(lo <= v, v <= hi) if upper is True else lo <= v
        cx.ensure("min <= status <= max", cx.iff(out.data[k], want))
    cx.unchanged("codes", a)


@contract("C14", "hard mask", weight=1.0,
          fns=[GD + "StatusArray.hard_mask", GD + "Graphicle.hard_mask"])
def hard_mask(cx):
    n = cx.size("n")
    a = cx.ints("status", n, "<i2", -100, 100, pool=STATUS)
    s = cx.g.StatusArray(a.arr)
    if cx.pick("from", ["status", "graph"]) == "graph":
        g = cx.g.Graphicle(cx.g.ParticleSet(status=s)).hard_mask
    else:
        g = s.hard_mask
    cx.ensure("a MaskGroup", type(g) is cx.g.MaskGroup)
    names = {"incoming": 21, "intermediate": 22, "outgoing": 23,
             "outgoing_nonperturbative_diffraction": 24}
    cx.ensure("four members", set(g.keys()) == set(names))
    cx.ensure("aggregated by or", g.agg_op.value == "or")
    allm = g.data
    for name, code in names.items():
        cx.ensure_len(name, g[name], n)
    for k in cx.each(n):
        v = a.at(k)
        for name, code in names.items():
            cx.ensure(f"{name} is |status| = {code}", cx.iff(
                g[name].data[k], cx.Or(v == code, v == -code)))
        cx.ensure("aggregate", cx.iff(allm[k], cx.Or(*[
            cx.Or(v == c, v == -c) for c in names.values()])))
    cx.unchanged("codes", a)


# ------------------------------------------------------------------ C20
@contract("C20", "cut_adj", weight=1.5, fns=[M + "cut_adj"])
def cut_adj(cx):
    n = cx.size("n", cap=16)
    a = cx.floats("matrix", (n, n))
    cut = cx.real("cut")
    if cx.concrete and n and cx.rng.random() < 0.3:
        cut = cx.drawn["cut"] = float(a.snap[0, n - 1])
    mode = cx.pick("mode", ["default", "max", "min"])
    loop = cx.pick("self_loop", ["default", True, False])
    weighted = cx.pick("weighted", ["default", True, False])
    kw = {}
    for name, v in (("mode", mode), ("self_loop", loop),
                    ("weighted", weighted)):
        if v != "default":
            kw[name] = v
    out = cx.g.matrix.cut_adj(a.arr, cut, **kw)
    cx.ensure_shape("adjacency", out, (n, n))
    if weighted is not True:
        cx.ensure("Boolean", cx.dtype_is(out, "<?"))
    else:
        cx.ensure("floating point", cx.dtype_is(out, "<f8"))
    cx.unchanged("affinities", a)
    for i in cx.each(n, "i"):
        d = out[i, i]
        if weighted is True:
            cx.ensure("diagonal", d == (1.0 if loop is True else 0.0))
        else:
            cx.ensure("diagonal", cx.iff(d, loop is True))
        for j in cx.each(n, "j"):
            v = a.at(i, j)
            keep = v > cut if mode == "min" else v < cut
            off = cx.Not(cx.same_index(i, j))
            if weighted is True:
                cx.ensure("kept with the affinity as weight", cx.implies(
                    cx.And(off, keep), lambda: cx.same(out[i, j], v)))
                cx.ensure("zero elsewhere", cx.implies(
                    cx.And(off, cx.Not(keep)), lambda: out[i, j] == 0.0))
            else:
                cx.ensure("exactly the entries within the cut",
                          cx.implies(off, lambda: cx.iff(out[i, j], keep)))


@contract("C20", "cut_adj arguments", weight=0.3, fns=[M + "cut_adj"])
def cut_args(cx):
    n = cx.size("n", cap=16)
    a = cx.floats("matrix", (n, n))
    bad = cx.pick("bad", ["mode", "weighted"])
    kw = {bad: {"mode": "neither", "weighted": "yes"}[bad]}
    err = cx.raises(ValueError,
                    lambda: cx.g.matrix.cut_adj(a.arr, 0.5, **kw))
    cx.ensure("ValueError", err is not None)


def affinity(cx, n):
    """Zero diagonal, positive elsewhere."""
    a = cx.floats("matrix", (n, n), 1e-3, 50.0)
    if cx.concrete:
        b = a.arr
        if cx.rng.random() < 0.5:
            b[...] = (b + b.T) / 2
        cx.np.fill_diagonal(b, 0.0)
        a.snap = b.copy()
    else:
        cx.assume_affinity(a, n)
    return a


@contract("C20", "knn_adj", weight=2, fns=[M + "knn_adj"])
def knn_adj(cx):
    n = cx.size("n", lo=1, cap=11)
    a = affinity(cx, n)
    loop = cx.pick("self_loop", ["default", True, False])
    weighted = cx.pick("weighted", [False, True])
    row = cx.pick("row", ["default", True, False])
    top = n if loop is True else n - 1
    if cx.concrete and top < 1:
        return
    k = cx.int("k", 1, top) if cx.concrete else cx.bounded("k", 1, top)
    dtype = cx.pick("dtype", [None, "<f4", "<f8"])
    kw = {}
    for name, v in (("self_loop", loop), ("row", row)):
        if v != "default":
            kw[name] = v
    if dtype is not None and weighted:
        kw["dtype"] = dtype
    out = cx.g.matrix.knn_adj(a.arr, k, weighted=weighted, **kw)
    cx.ensure_shape("adjacency", out, (n, n))
    cx.unchanged("affinities", a)
    if weighted:
        cx.ensure("dtype", cx.dtype_is(out, dtype or "<f8"))
    else:
        cx.ensure("Boolean", cx.dtype_is(out, "<?"))

    def get(i, j):
        return out[j, i] if row is False else out[i, j]

    def kept(i, j):
        if weighted:
            return cx.Not(get(i, j) == 0.0)
        return get(i, j)
    for j in cx.each(n, "j"):
        if loop is not True:
            cx.ensure("no self-loops", cx.Not(kept(j, j)))
        elif not weighted:
            cx.ensure("self-loops", kept(j, j))
        else:
            cx.ensure("the zero self-affinity", get(j, j) == 0.0)
        others = k - 1 if loop is True else k
        cx.ensure("k neighbours", cx.count(n, lambda i: cx.And(
            kept(i, j), cx.Not(cx.same_index(i, j)))) == others)
        for i in cx.each(n, "i"):
            if weighted:
                tol = 1e-6 if dtype == "<f4" else 0.0
                cx.ensure("weights are affinities", cx.implies(
                    kept(i, j), lambda: cx.eq(get(i, j), a.at(i, j),
                                              tol=tol) if tol and
                    cx.concrete else cx.same(get(i, j), a.at(i, j))))
            for h in cx.each(n, "h"):
                cx.ensure("the smallest are kept", cx.implies(
                    cx.And(kept(i, j), cx.Not(kept(h, j)),
                           cx.Not(cx.same_index(h, j)),
                           cx.Not(cx.same_index(i, j))),
                    lambda: a.at(i, j) <= a.at(h, j)))


@contract("C20", "knn_adj dtype", weight=0.3, fns=[M + "knn_adj"])
def knn_dtype(cx):
    n = cx.size("n", lo=2)
    a = affinity(cx, n)
    dt = cx.pick("dtype", ["<i4", "<?"])
    err = cx.raises(ValueError, lambda: cx.g.matrix.knn_adj(
        a.arr, 1, weighted=True, dtype=dt))
    cx.ensure("weights need a floating point dtype", err is not None)


@contract("C20", "fc_adj", weight=0.5, fns=[M + "fc_adj"])
def fc_adj(cx):
    n = cx.size("n", cap=16)
    loop = cx.pick("self_loop", ["default", True, False])
    dtype = cx.pick("dtype", ["default", "<f8", "<i4", "<?"])
    kw = {}
    if loop != "default":
        kw["self_loop"] = loop
    if dtype != "default":
        kw["dtype"] = dtype
    out = cx.g.matrix.fc_adj(n, **kw)
    cx.ensure_shape("adjacency", out, (n, n))
    cx.ensure("dtype", cx.dtype_is(out, "<?" if dtype == "default"
                                   else dtype))
    for i in cx.each(n, "i"):
        for j in cx.each(n, "j"):
            on = True if loop is True else cx.Not(cx.same_index(i, j))
            got = out[i, j]
            if dtype in ("default", "<?"):
                cx.ensure("all ones off the diagonal", cx.iff(got, on))
            else:
                cx.ensure("all ones off the diagonal", cx.And(
                    cx.implies(on, lambda: got == 1),
                    cx.implies(cx.Not(on), lambda: got == 0)))
