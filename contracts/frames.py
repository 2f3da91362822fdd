"""C25: frame conditions of the public functions, one contract per group of
calls: operands, and arrays read from them before, keep their contents, and
new results share no memory with them."""
from vc.contract import contract

D = "graphicle.data."
K = "graphicle.calculate."
S = "graphicle.select."
T = "graphicle.transform."
X = "graphicle.matrix."
READS = ("pt", "eta", "phi", "rapidity", "mass", "mass_t", "theta",
         "_xy_pol")


class Ops:
    """Operands of unbounded length."""

    def __init__(self, cx, kind):
        g = self.g = cx.g
        self.cx = cx
        self.np = cx.np
        n = self.n = cx.size("n", cap=8)
        m = cx.size("m", cap=8)
        self.drawn = {}

        def keep(nm, a):
            self.drawn[nm] = a
            return a.arr
        self.p = g.MomentumArray(keep("p", cx.momenta("p", n, kind=kind)))
        self.q = g.MomentumArray(keep("q", cx.momenta("q", m, kind=kind)))
        self.m1 = g.MaskArray(keep("m1", cx.bools("m1", n)))
        self.m2 = g.MaskArray(keep("m2", cx.bools("m2", n)))
        self.group = g.MaskGroup({"u": self.m1, "v": self.m2}, agg_op="or")
        self.pdg = g.PdgArray(keep("pdg", cx.ints("pdg", n)))
        self.status = g.StatusArray(keep("st", cx.ints(
            "st", n, dtype="<i2", lo=0, hi=99)))
        self.color = g.ColorArray(keep("color", cx.ints("color", (n, 2))))
        self.helicity = g.HelicityArray(keep("hel", cx.ints(
            "hel", n, dtype="<i2")))
        self.codes = keep("codes", cx.ints("codes", m, lo=1))
        self.edges = keep("edges", cx.ints("edges", (n, 2)))
        self.weights = keep("weights", cx.floats("weights", n))
        self.adj = g.AdjacencyList(self.edges, weights=self.weights)
        self.event = g.Graphicle(
            g.ParticleSet(self.pdg, self.p, self.color, self.helicity,
                          self.status, self.m1), self.adj)
        self.s = cx.real("s", -1.5, 1.5)
        self.sa = keep("sa", cx.floats("sa", n, lo=-1.0, hi=1.0))

    def operands(self):
        return {"p": self.p._data, "q": self.q._data, "m1": self.m1.data,
                "m2": self.m2.data, "pdg": self.pdg.data,
                "status": self.status.data, "color": self.color._data,
                "helicity": self.helicity.data, "codes": self.codes,
                "edges": self.adj._data, "weights": self.adj.weights,
                "sa": self.sa}


def arrays_of(cx, x, depth=0):
    """Every array inside a result."""
    g, np = cx.g, cx.np
    if x is None or isinstance(x, (str, bool, int, float)) or depth > 5:
        return []
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (g.MaskGroup, dict)):
        return [a for v in x.values() for a in arrays_of(cx, v, depth + 1)]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays_of(cx, v, depth + 1)]
    if isinstance(x, g.Graphicle):
        return arrays_of(cx, x.particles, depth + 1) + \
            arrays_of(cx, x.adj, depth + 1)
    if isinstance(x, g.ParticleSet):
        return [a for k in ("pdg", "pmu", "color", "helicity", "status",
                            "final")
                for a in arrays_of(cx, getattr(x, k), depth + 1)]
    if isinstance(x, g.AdjacencyList):
        return [x._data, x.weights]
    if hasattr(x, "_data"):
        return [x._data]
    return []


GROUPS = {
    "shifts": ("any", [D + "MomentumArray.shift_phi",
                       D + "MomentumArray.shift_rapidity"], {
        "shift_phi": lambda k: k.p.shift_phi(k.s),
        "shift_phi array": lambda k: k.p.shift_phi(k.sa),
        "shift_rapidity": lambda k: k.p.shift_rapidity(k.s),
        "shift_rapidity array": lambda k: k.p.shift_rapidity(k.sa),
        "experimental": lambda k: k.p.shift_eta(k.s, experimental=True),
    }),
    "delta R": ("any", [D + "MomentumArray.delta_R",
                        X + "parton_hadron_distance"], {
        "delta_R": lambda k: k.p.delta_R(k.q),
        "delta_R true": lambda k: k.p.delta_R(k.q, pseudo=False),
        "parton hadron": lambda k: X_(k).parton_hadron_distance(
            k.p, k.q, pt_exp=-0.1),
    }),
    "masks": ("any", [D + "MaskArray.__and__", D + "MaskArray.__or__",
                      D + "MaskArray.__invert__", D + "MaskArray.__eq__",
                      D + "MaskGroup.bitwise_or",
                      D + "MaskGroup.bitwise_and",
                      D + "MaskGroup.recursive_drop"], {
        "algebra": lambda k: [k.m1 & k.m2, k.m1 | k.m2, ~k.m1, k.m1 == k.m2,
                              k.m1 != k.m2],
        "groups": lambda k: [k.group & k.m1, k.m1 | k.group.data, ~k.group,
                             k.group == k.m2, k.group != k.m1],
        "aggregates": lambda k: [k.group.data, k.group.bitwise_or(),
                                 k.group.bitwise_and()],
        "drop": lambda k: k.group.recursive_drop("u"),
    }),
    "queries": ("any", [D + "PdgArray.mask", D + "StatusArray.in_range",
                        D + "StatusArray.hard_mask"], {
        "blacklist": lambda k: k.pdg.mask(k.codes),
        "whitelist": lambda k: k.pdg.mask(k.codes, blacklist=False),
        "signed": lambda k: k.pdg.mask(k.codes, sign_sensitive=True),
        "in_range": lambda k: k.status.in_range(20, 80),
        "in_range open": lambda k: k.status.in_range(20, None, True),
        "hard_mask": lambda k: k.status.hard_mask,
    }),
    "copies": ("any", [D + "_composite_copy", D + "MaskGroup.copy"], {
        "event": lambda k: k.event.copy(),
        "parts": lambda k: [k.p.copy(), k.m1.copy(), k.pdg.copy(),
                            k.color.copy(), k.status.copy(),
                            k.helicity.copy(), k.adj.copy()],
        "group": lambda k: k.group.copy(),
    }),
    "filters": ("any", [D + "_composite_getitem"], {
        "event": lambda k: k.event[k.m1],
        "group": lambda k: k.event[k.group],
        "parts": lambda k: [k.p[k.m2], k.adj[k.m1], k.pdg[k.m1],
                            k.color[k.m2]],
    }),
    "arithmetic": ("any", [D + "_array_ufunc"], {
        "arithmetic": lambda k: [k.p + k.p, k.p * 2.0, -k.p],
        "comparison": lambda k: [k.pdg == 21, k.p == k.p,
                                 k.color != k.color, k.pdg > 3],
        "absolute": lambda k: [abs(k.status), abs(k.pdg)],
        "sum": lambda k: k.np.sum(k.p, axis=0),
    }),
    "sums": ("timelike", [K + "combined_mass", K + "aggregate_momenta",
                          K + "resultant_coords", K + "c_parameter"], {
        "combined_mass": lambda k: K_(k).combined_mass(k.p),
        "weighted": lambda k: K_(k).combined_mass(
            k.p, weight=k.weights.reshape(-1, 1)),
        "aggregate": lambda k: K_(k).aggregate_momenta(k.p, [k.m1, k.m2]),
    }),
    "centroids": ("timelike", [K + "resultant_coords"], {
        "resultant": lambda k: K_(k).resultant_coords(k.p),
        "centroid": lambda k: K_(k).weighted_centroid(k.p),
    }),
    "c_parameter": ("moving", [K + "c_parameter"], {
        "c_parameter": lambda k: K_(k).c_parameter(k.p),
    }),
    "thrust": ("moving", [K + "thrust"], {
        "thrust": lambda k: K_(k).thrust(k.p, True, 7),
    }),
    "spherocity": ("moving", [K + "spherocity"], {
        "spherocity": lambda k: K_(k).spherocity(k.p, True, 7),
    }),
    "prune": ("any", [S + "centroid_prune"], {
        "all": lambda k: S_(k).centroid_prune(k.p, 1.0, None, (0.0, 1.0)),
        "masked": lambda k: S_(k).centroid_prune(k.p, 1.0, k.m1, (0.0, 1.0)),
        "default": lambda k: S_(k).centroid_prune(k.p, 1.0, k.m1),
    }),
    "splitting": ("moving", [T + "split_hardest", T + "split_momentum",
                             T + "soft_hard_axis"], {
        "hardest": lambda k: T_(k).split_hardest(k.p, 0.3, 0.7, (1.0, 0.5)),
        "axis": lambda k: T_(k).soft_hard_axis(k.p),
        "one": lambda k: T_(k).split_momentum(k.p[0], 0.4, 0.2, (1.1, 0.3)),
    }),
    "set distance": ("any", [K + "jaccard_distance", S + "any_overlap"], {
        "jaccard": lambda k: K_(k).jaccard_distance(k.m1, k.m2),
        "weighted": lambda k: K_(k).jaccard_distance(
            k.m1, k.group, abs(k.weights)),
        "overlap": lambda k: S_(k).any_overlap(k.group),
    }),
    "graph": ("any", [D + "AdjacencyList.roots", D + "AdjacencyList.leaves",
                      D + "AdjacencyList.nodes", S + "vertex_descendants",
                      S + "hadron_vertices"], {
        "roots": lambda k: [k.adj.roots, k.adj.leaves],
        "nodes": lambda k: k.adj.nodes,
        "descendants": lambda k: S_(k).vertex_descendants(
            k.adj, k.cx.int("vertex")),
        "hadrons": lambda k: S_(k).hadron_vertices(k.adj, k.status),
    }),
}


def K_(k):
    return k.g.calculate


def S_(k):
    return k.g.select


def T_(k):
    return k.g.transform


def X_(k):
    return k.g.matrix


NEEDS_ONE = ("c_parameter", "thrust", "spherocity", "splitting", "sums",
             "centroids")


def register(group, kind, fns, calls):
    @contract("C25", "frame: " + group, fns=fns, weight=0.4)
    def frame(cx):
        k = Ops(cx, kind)
        if group in NEEDS_ONE:
            cx.assume(k.n > 0)
        name = cx.pick("call", sorted(calls))
        reads = {}
        if cx.bool("read before"):
            reads = cx.quiet(lambda: {r: getattr(k.p, r) for r in READS})
        held = {nm: cx.watch(a) for nm, a in k.operands().items()}
        kept = {nm: cx.watch(a) for nm, a in reads.items()}
        out = cx.quiet(lambda: calls[name](k))
        for nm, w in held.items():
            cx.intact(name + " keeps " + nm, w)
        for nm, w in kept.items():
            cx.intact(name + " keeps what was read: " + nm, w)
        for nm, a in k.drawn.items():
            cx.unchanged(nm, a)
        for a in arrays_of(cx, out):
            for nm, o in list(k.operands().items()) + list(reads.items()):
                cx.ensure("shares no memory with " + nm,
                          cx.Not(cx.shares(a, o)))


for _g, (_k, _f, _c) in GROUPS.items():
    register(_g, _k, _f, _c)
