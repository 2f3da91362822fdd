"""C25: operands and thread settings survive every public call."""
import math

from vc.contract import contract

from .graph import collision
from .jets import gauss_costs

D = "graphicle.data.MomentumArray."
K = "graphicle.calculate."
S = "graphicle.select."
T = "graphicle.transform."
X = "graphicle.matrix."
WHY = ("one contract over the whole public interface, evaluated at run "
       "time; the frame of each function is also an obligation of the "
       "contract of that function")

READS = ("pt", "eta", "phi", "theta", "rapidity", "mass", "mass_t")


class Kit:
    """An event, everything read from it, and other operands."""

    def __init__(self, cx):
        np, rng, g = cx.np, cx.rng, cx.g
        self.cx, self.np, self.rng, self.g = cx, np, rng, g
        self.graph, self.rows, self.pdg, self.status, self.fin = collision(cx)
        n = self.n = len(self.rows)
        self.pmu = self.graph.pmu
        self.other = g.MomentumArray(
            cx.momenta("other", int(rng.integers(2, 7)),
                       kind="transverse", tiny=False).arr)
        self.m1 = g.MaskArray(rng.random(n) < 0.5)
        self.m2 = g.MaskArray(rng.random(n) < 0.5)
        self.m1.data[0] = True
        self.group = g.MaskGroup(
            {"u": g.MaskArray(rng.random(n) < 0.5),
             "v": g.MaskGroup({"w": g.MaskArray(rng.random(n) < 0.5),
                               "latent": g.MaskArray(rng.random(n) < 0.5)},
                              agg_op="or"),
             "x": g.MaskArray(rng.random(n) < 0.5)}, agg_op="or")
        self.w = rng.random(n)
        self.codes = np.array([21, 5, -6], dtype="<i4")
        self.hier = None
        self.aff = abs(rng.normal(size=(5, 5)))
        self.aff = self.aff + self.aff.T
        np.fill_diagonal(self.aff, 0.0)
        self.adj = g.AdjacencyList(np.array(self.rows, "<i4"),
                                   weights=rng.random(n))

    def arrays(self):
        gr = self.graph
        out = {"pdg": gr.pdg.data, "pmu": gr.pmu._data,
               "color": gr.color._data, "helicity": gr.helicity.data,
               "status": gr.status.data, "final": gr.final.data,
               "edges": gr.adj._data, "other": self.other._data,
               "m1": self.m1.data, "m2": self.m2.data, "w": self.w,
               "codes": self.codes, "aff": self.aff,
               "wedges": self.adj._data, "weights": self.adj.weights,
               "g.u": self.group["u"].data, "g.x": self.group["x"].data,
               "g.v.w": self.group["v"]["w"].data,
               "g.v.latent": self.group["v"]["latent"].data}
        if self.hier is not None:
            for i, a in enumerate(found_arrays(self.g, self.hier)):
                out[f"hier.{i}"] = a
        return out

    def read(self):
        out = {}
        for nm, p in (("pmu", self.pmu), ("other", self.other)):
            for r in READS:
                out[nm + "." + r] = getattr(p, r)
        return out


def found_arrays(g, x, depth=0):
    """Every array inside a result."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return [x]
    if depth > 6 or x is None or isinstance(x, (str, int, float, bool)):
        return []
    if isinstance(x, g.MaskGroup):
        out = []
        for v in x.values():
            out += found_arrays(g, v, depth + 1)
        return out
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in found_arrays(g, v, depth + 1)]
    if isinstance(x, dict):
        return [a for v in x.values() for a in found_arrays(g, v, depth + 1)]
    if isinstance(x, (g.ParticleSet, g.Graphicle)):
        names = ["pdg", "pmu", "color", "helicity", "status", "final"]
        out = [a for k in names
               for a in found_arrays(g, getattr(x, k), depth + 1)]
        if isinstance(x, g.Graphicle):
            out += found_arrays(g, x.adj, depth + 1)
        return out
    if hasattr(x, "weights"):
        return [x._data] + ([x.weights] if x.weights is not None else [])
    if hasattr(x, "_data"):
        return [x._data]
    return []


# name -> call.  All of these return new objects, not documented views.
FRESH = {
    "shift_phi": lambda k: k.pmu.shift_phi(k.x),
    "shift_rapidity": lambda k: k.pmu.shift_rapidity(k.x),
    "shift_eta": lambda k: k.cx.quiet(lambda: k.pmu.shift_eta(k.x)),
    "shift_eta experimental": lambda k: k.pmu.shift_eta(
        k.x, experimental=True),
    "shift array": lambda k: k.pmu.shift_phi(k.w),
    "copy": lambda k: [k.graph.copy(), k.pmu.copy(), k.m1.copy(),
                       k.group.copy(), k.adj.copy(), k.graph.pdg.copy(),
                       k.graph.color.copy(), k.graph.status.copy(),
                       k.graph.particles.copy(), k.graph.helicity.copy()],
    "delta_R": lambda k: k.pmu.delta_R(k.other),
    "delta_R self": lambda k: k.pmu.delta_R(k.pmu),
    "delta_R true": lambda k: k.pmu.delta_R(k.other, pseudo=False),
    "pdg mask": lambda k: k.graph.pdg.mask(k.codes),
    "pdg whitelist": lambda k: k.graph.pdg.mask(
        k.codes, blacklist=False, sign_sensitive=True),
    "pdg data": lambda k: [k.graph.pdg.charge, k.graph.pdg.mass,
                           k.graph.pdg.width],
    "in_range": lambda k: k.graph.status.in_range(20, 80),
    "in_range signed": lambda k: k.graph.status.in_range(
        20, None, sign_sensitive=True),
    "hard_mask": lambda k: k.graph.hard_mask,
    "roots": lambda k: k.adj.roots.copy(),
    "leaves": lambda k: k.adj.leaves.copy(),
    "matrix": lambda k: [k.adj.matrix.copy(), k.graph.adj.matrix.copy()],
    "nodes": lambda k: k.adj.nodes.copy(),
    "mask algebra": lambda k: [k.m1 & k.m2, k.m1 | k.m2, ~k.m1,
                               k.m1 == k.m2, k.m1 != k.m2, k.m1 & k.group,
                               k.group | k.m2, ~k.group],
    "group data": lambda k: [k.group.data, k.group.bitwise_or(),
                             k.group.bitwise_and()],
    "recursive_drop": lambda k: k.group.recursive_drop(),
    "equal_to": lambda k: k.group.equal_to(k.group.copy()),
    "arithmetic": lambda k: [k.pmu + k.pmu, k.pmu * 2.0, -k.pmu,
                             k.graph.pdg == 21, k.pmu == k.pmu,
                             k.graph.color != k.graph.color,
                             abs(k.graph.status), k.np.sum(k.pmu, axis=0)],
    "filter": lambda k: [k.graph[k.m1], k.graph[k.group], k.pmu[k.m1],
                         k.adj[k.m1], k.graph.particles[k.m2],
                         k.pmu[[0, -1]]],
    "weighted_centroid": lambda k: k.g.calculate.weighted_centroid(k.pmu),
    "resultant_coords": lambda k: k.g.calculate.resultant_coords(k.pmu),
    "combined_mass": lambda k: [
        k.g.calculate.combined_mass(k.pmu),
        k.g.calculate.combined_mass(k.pmu, weight=k.w[:, None])],
    "aggregate": lambda k: k.g.calculate.aggregate_momenta(
        k.pmu, [k.m1, k.m2]),
    "cluster_coeff": lambda k: k.g.calculate.cluster_coeff_distbn(k.pmu, 1.0),
    "thrust": lambda k: k.g.calculate.thrust(k.other, True, 7),
    "spherocity": lambda k: k.g.calculate.spherocity(k.other, True, 7),
    "c_parameter": lambda k: k.g.calculate.c_parameter(k.other),
    "jaccard": lambda k: [
        k.g.calculate.jaccard_distance(k.m1, k.m2, k.w),
        k.g.calculate.jaccard_distance(k.m1, k.group)],
    "cut_adj": lambda k: [
        k.g.matrix.cut_adj(k.aff, 1.0, mode=m, weighted=w, self_loop=s)
        for m in ("max", "min") for w in (True, False)
        for s in (True, False)],
    "knn_adj": lambda k: [
        k.g.matrix.knn_adj(k.aff, 2, weighted=w, self_loop=s, row=r)
        for w in (True, False) for s in (True, False)
        for r in (True, False)],
    "delta_R_aff": lambda k: k.g.matrix.delta_R_aff(k.pmu),
    "parton_hadron": lambda k: k.g.matrix.parton_hadron_distance(
        k.pmu, k.other, pt_exp=-0.1),
    "split_hardest": lambda k: k.g.transform.split_hardest(
        k.pmu, 0.3, 0.7),
    "split_hardest axis": lambda k: k.g.transform.split_hardest(
        k.pmu, 0.3, 0.7, (1.0, 0.5)),
    "split_momentum": lambda k: k.g.transform.split_momentum(
        k.pmu[[0]], 0.4, 0.2, (1.1, 0.3)),
    "soft_hard_axis": lambda k: k.g.transform.soft_hard_axis(k.pmu),
    "vertex_descendants": lambda k: k.g.select.vertex_descendants(
        k.adj, k.rows[0][1]),
    "edge_descendants": lambda k: k.g.select.edge_descendants(
        k.adj, tuple(k.rows[0])),
    "hadron_vertices": lambda k: k.g.select.hadron_vertices(
        k.graph.adj, k.graph.status),
    "hard_descendants": lambda k: k.g.select.hard_descendants(k.graph),
    "hierarchy": lambda k: k.g.select.hierarchy(k.graph),
    "hierarchy of given": lambda k: k.g.select.hierarchy(k.graph, k.hier),
    "partition": lambda k: k.g.select.partition_descendants(
        k.graph, k.hier),
    "centroid_prune": lambda k: [
        k.g.select.centroid_prune(k.pmu, 1.0),
        k.g.select.centroid_prune(k.pmu, 1.0, mask=k.m1),
        k.g.select.centroid_prune(k.pmu, 1.0, k.m1, (0.0, 1.0))],
    "arg_closest": lambda k: k.g.select.arg_closest(
        k.other[[0]], k.pmu),
    "fastjet": lambda k: k.g.select.fastjet_clusters(k.pmu, 0.6, -1),
    "find_vertex": lambda k: k.g.select.find_vertex(
        k.graph, pdgs_in={21}),
    "any_overlap": lambda k: k.g.select.any_overlap(k.group),
}
# results which are documented to hold or view operands
VIEWS = {
    "leaf_masks": lambda k: k.g.select.leaf_masks(k.group),
    "flatten": lambda k: k.group.flatten("rise"),
    "flatten leaves": lambda k: k.group.flatten("leaves"),
    "flatten agg": lambda k: k.group.flatten("agg"),
    "monte_carlo_tag": lambda k: k.g.select.monte_carlo_tag(
        k.graph.particles, [k.m1, k.m2] * 8, clustered_pmu=k.pmu),
    "color_singlets": lambda k: k.g.select.color_singlets(
        k.g.select.leaf_masks(k.group), k.graph.status, k.graph.color),
    "fields": lambda k: [k.pmu.x, k.pmu.energy, k.graph.edges,
                         k.graph.final, k.graph.color.color],
    "slices": lambda k: [k.pmu[1:], k.graph[::2], k.adj[:3], k.group[1:]],
    "serialize": lambda k: [k.graph.serialize(), k.group.serialize(),
                            k.adj.serialize()],
    "iterate": lambda k: [list(k.pmu), list(k.graph.color), list(k.adj)],
    "repr": lambda k: [repr(k.graph), repr(k.pmu), str(k.group),
                       repr(k.adj)],
}


@contract("C25", "operands", mode="concrete", why=WHY, weight=4,
          fns=[D + "shift_eta", D + "delta_R", S + "arg_closest",
               S + "partition_descendants", S + "hierarchy",
               T + "split_hardest", X + "knn_adj", X + "cut_adj"])
def operands(cx):
    k = Kit(cx)
    np = cx.np
    name = cx.pick("call", sorted(FRESH) + sorted(VIEWS))
    call = FRESH.get(name) or VIEWS[name]
    k.x = cx.real("x", -2.0, 2.0)
    if name in ("partition", "hierarchy of given"):
        k.hier = k.g.select.hard_descendants(k.graph)
        cx.assume(len(k.hier) > 0)
        if name == "partition":
            k.hier = k.g.select.hierarchy(k.graph)
    arrays = k.arrays()
    reads = k.read() if cx.bool("read before") else {}
    before = {n: (a.tobytes(), a.dtype, a.shape) for n, a in arrays.items()}
    kept = {n: a.tobytes() for n, a in reads.items()}
    try:
        out = cx.quiet(lambda: call(k))
    except (ValueError, IndexError, TypeError):
        if name not in ("hard_descendants", "hierarchy", "monte_carlo_tag",
                        "hierarchy of given", "color_singlets", "partition"):
            raise
        out = None
    now = k.arrays()
    for n, (b, dt, shape) in before.items():
        cx.ensure("operands unchanged", now[n].tobytes() == b and
                  now[n].dtype == dt and now[n].shape == shape,
                  f"{name} altered {n}")
    for n, a in reads.items():
        cx.ensure("arrays read before unchanged", a.tobytes() == kept[n],
                  f"{name} altered {n}")
    if name not in FRESH:
        return
    for a in found_arrays(k.g, out):
        for n, o in list(now.items()) + list(reads.items()):
            cx.ensure("shares no memory with an operand",
                      not np.shares_memory(a, o), f"{name} shares {n}")


# ------------------------------------------------------------- threads
class Broken(Exception):
    pass


def breaking(g):
    class BreaksLater(g.MomentumArray):
        """Fails when its transverse momenta are read."""
        @property
        def _xy_pol(self):
            raise Broken()
    return BreaksLater


def thread_calls(cx, g, a, b, t):
    return {
        "delta_R": lambda: a.delta_R(b, threads=t),
        "delta_R self": lambda: a.delta_R(a, threads=t),
        "delta_R true": lambda: a.delta_R(b, pseudo=False, threads=t),
        "cluster_coeff": lambda: g.calculate.cluster_coeff_distbn(
            a, 0.9, threads=t),
        "arg_closest": lambda: g.select.arg_closest(b, a, num_threads=t)
        if len(b) <= len(a) else g.select.arg_closest(a, b, num_threads=t),
    }


@contract("C25", "thread setting", mode="concrete", weight=2, fns=[
    K + "_thread_scope", D + "delta_R", K + "cluster_coeff_distbn",
    S + "arg_closest"], why="numba's process-wide setting is read back at "
    "run time")
def threads(cx):
    import numba as nb
    g = cx.g
    top = nb.config.NUMBA_NUM_THREADS
    n, m = cx.size("n", lo=2, hi=40), cx.size("m", lo=1, hi=20)
    a = cx.momenta("a", n, kind="transverse", tiny=False)
    b = cx.momenta("b", m, kind="transverse", tiny=False)
    cx.assume(all(abs(r[2]) < r[3] * (1 - 1e-6) for r in
                  a.snap.tolist() + b.snap.tolist()))
    start = cx.int("setting", 1, top)
    t = cx.int("threads", 1, top)
    fail = cx.pick("failure", [None, None, "count", "inside", "operand"])
    A, B = g.MomentumArray, g.MomentumArray
    if fail == "inside":
        A = B = breaking(g)
    if fail == "count":
        t = cx.pick("bad count", [0, -1, top + 1, 10 ** 6])
    pa, pb = A(a.arr), B(b.arr)
    name = cx.pick("call", sorted(thread_calls(cx, g, pa, pb, 1)))
    if fail == "operand":
        pb = None
    nb.set_num_threads(start)
    err = None
    try:
        out = thread_calls(cx, g, pa, pb, t)[name]()
    except Exception as e:
        err, out = e, None
    got = nb.get_num_threads()
    nb.set_num_threads(1)
    if fail is None and err is not None:
        raise err
    cx.ensure("the thread setting is restored", got == start,
              f"{name} left {got}, not {start} ({fail})")
    if fail == "count":
        cx.ensure("an impossible count is refused", err is not None)
    if fail is None:
        ref = thread_calls(cx, g, pa, pb, 1)[name]()
        if name == "arg_closest":
            # near ties may resolve differently: the order of the kernel's
            # sums over the candidates follows the schedule
            lo, hi = (b, a) if m <= n else (a, b)
            cost = gauss_costs(cx, lo.snap.tolist(), hi.snap.tolist())
            tot = [math.fsum(cost[i][j] for i, j in enumerate(r))
                   for r in (ref, out)]
            cx.ensure("as many for any thread count", len(ref) == len(out))
            cx.ensure("the same cost for any thread count",
                      abs(tot[0] - tot[1]) <= 1e-9, f"{tot}")
        else:
            cx.ensure("the same for any thread count",
                      cx.same_bytes(ref, out), f"{name} with {t} threads")
    cx.unchanged("a", a)
    cx.unchanged("b", b)


class Inside(Exception):
    pass


@contract("C25", "thread scope", fns=[K + "_thread_scope"], private=True)
def thread_scope(cx):
    """The setting holds inside the scope and is restored on every exit."""
    import numba as nb
    scope = cx.private("calculate._thread_scope", 1)
    top = nb.config.NUMBA_NUM_THREADS
    start, t = cx.int("setting", 1, 8), cx.int("threads", -2, 12)
    cx.assume(start >= 1)
    cx.assume(start <= top)
    how = cx.pick("exit", ["normal", "exception"])
    nb.set_num_threads(start)
    refused, inside = False, None
    try:
        with scope(t):
            inside = nb.get_num_threads()
            if how == "exception":
                raise Inside()
    except Inside:
        pass
    except ValueError:
        refused = True
    got = nb.get_num_threads()
    nb.set_num_threads(1)
    cx.ensure("the setting is restored", got == start)
    if refused:
        cx.ensure("refused exactly when impossible", cx.Or(t < 1, t > top))
    else:
        cx.ensure("the setting holds inside", inside == t)


@contract("C25", "threads of delta_R", fns=[D + "delta_R",
                                            K + "_thread_scope"], weight=0.5)
def threads_delta_r(cx):
    import numba as nb
    top = nb.config.NUMBA_NUM_THREADS
    n, m = cx.size("n", cap=6), cx.size("m", cap=6)
    p = cx.g.MomentumArray(cx.momenta("p", n).arr)
    q = cx.g.MomentumArray(cx.momenta("q", m).arr)
    start, t = cx.int("setting", 1, 8), cx.int("threads", -2, 12)
    cx.assume(start >= 1)
    cx.assume(start <= top)
    call = cx.pick("call", ["pair", "true"])
    nb.set_num_threads(start)
    err = None
    try:
        cx.quiet(lambda: p.delta_R(q, pseudo=call != "true", threads=t))
    except ValueError as e:
        err = e
    got = nb.get_num_threads()
    nb.set_num_threads(1)
    cx.ensure("the thread setting is restored", got == start)
    cx.ensure("an impossible count is refused, a possible one is not",
              cx.iff(err is not None, cx.Or(t < 1, t > top)))
