"""C15 edge lists, C16 reachability, C17 hierarchy, C18 colour singlets,
C24 vertex search."""
import itertools as it

from vc.contract import contract

GD = "graphicle.data."
A = GD + "AdjacencyList."
S = "graphicle.select."
WHY = ("the code delegates to scipy.sparse / csgraph / pandas on data of "
       "unbounded shape; no contract of those within reach of the verifier "
       "decides it")


def draw_edges(cx, n, name="edges"):
    """Edge lists: small id ranges give loops, cycles and parallels."""
    if not cx.concrete:
        return cx.ints(name, (n, 2), "<i4")
    style = cx.pick(name + " style", ["dense", "signed", "sparse", "dag"])
    np, rng = cx.np, cx.rng

    def make():
        if style == "dense":
            return rng.integers(0, 5, size=(n, 2))
        if style == "signed":
            return rng.integers(-4, 5, size=(n, 2))
        if style == "sparse":
            return rng.choice([-1000, -77, -3, -1, 0, 2, 5, 90, 4000],
                              size=(n, 2))
        a = np.sort(rng.integers(-8, 9, size=(n, 2)), axis=1)[:, ::-1]
        a[:, 1] -= a[:, 0] == a[:, 1]
        return a
    from vc.concrete import CIn
    return CIn(np.array(cx._draw(name, make), dtype="<i4").reshape(n, 2))


# ------------------------------------------------------------------ C15
@contract("C15", "nodes", fns=[A + "nodes"])
def nodes(cx):
    n = cx.size("n", lo=1 if cx.symbolic else 0)
    e = draw_edges(cx, n)
    adj = cx.g.AdjacencyList(e.arr)
    out = adj.nodes
    m = len(out)
    for k in cx.each(n):
        for j in (0, 1):
            cx.ensure("every vertex id is listed", cx.any(
                m, lambda t: out[t] == e.at(k, j)))
    for t in cx.each(m):
        cx.ensure("only vertex ids", cx.any(n, lambda k: cx.Or(
            e.at(k, 0) == out[t], e.at(k, 1) == out[t])))
        for s in cx.each(m):
            cx.ensure("each vertex id once", cx.implies(
                s < t, cx.Not(out[s] == out[t])))
            cx.ensure("ascending magnitude", cx.implies(
                s < t, cx.Not(abs(out[t]) < abs(out[s]))))
    g = cx.g.Graphicle(adj=adj)
    again = g.nodes
    cx.ensure_len("nodes of the event", again, m)
    for t in cx.each(m):
        cx.ensure("nodes of the event", again[t] == out[t])
    cx.unchanged("edges", e)


@contract("C15", "roots and leaves", weight=2,
          fns=[A + "roots", A + "leaves", A + "to_sparse",
               A + "_sparse_signed", A + "_sparse_unsigned",
               A + "_edge_relabel"])
def roots_leaves(cx):
    n = cx.size("n", lo=1 if cx.symbolic else 0)
    e = draw_edges(cx, n)
    kw = {}
    if cx.bool("weighted") if cx.concrete else cx.pick(
            "weighted", [False, True]):
        kw["weights"] = cx.floats("w", n).arr
    adj = cx.g.AdjacencyList(e.arr, **kw)
    order = cx.pick("order", [("roots", "leaves"), ("leaves", "roots"),
                              ("matrix", "leaves", "roots"),
                              ("leaves", "matrix", "roots")])
    for what in order:
        out = getattr(adj, what)
        if what == "matrix":
            continue
        cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
        cx.ensure_shape(what, out.data, (n,))
        # a root edge leaves a vertex which no edge enters
        mine, other = (0, 1) if what == "roots" else (1, 0)
        for k in cx.each(n):
            cx.ensure(what, cx.iff(out.data[k], cx.Not(cx.any(
                n, lambda i: e.at(i, other) == e.at(k, mine)))))
    cx.unchanged("edges", e)


@contract("C15", "matrix", weight=2,
          fns=[A + "matrix", A + "_sparse_weighted", A + "to_sparse"])
def matrix(cx):
    n = cx.size("n", lo=1 if cx.symbolic else 0)
    e = draw_edges(cx, n)
    weighted = cx.pick("weighted", [False, True])
    kw, w = {}, lambda k: 1
    if weighted:
        win = cx.floats("w", n)
        kw["weights"] = win.arr
        w = win.at
    adj = cx.g.AdjacencyList(e.arr, **kw)
    before = cx.pick("before", ["nothing", "roots", "matrix", "leaves"])
    if before != "nothing":
        getattr(adj, before)
    out = adj.matrix
    ids = cx.np.unique(e.arr)
    cx.ensure_shape("one row and column per vertex", out,
                    (len(ids), len(ids)))
    for i in cx.each(len(ids)):
        for j in cx.each(len(ids)):
            want = cx.sum(n, lambda k: cx.ite(
                cx.And(e.at(k, 0) == ids[i], e.at(k, 1) == ids[j]),
                cx.real_of(w(k)), cx.real_of(0)))
            cx.ensure("sums of parallel edges",
                      cx.eq(cx.real_of(out[i, j]), want, scale=10.0))
    if not weighted and n:
        cx.ensure("counts are integers", out.dtype.kind == "i")
    cx.unchanged("edges", e)
    if weighted:
        cx.unchanged("weights", win)
        for k in cx.each(n):
            cx.ensure("weights stay", cx.same(adj.weights[k], w(k)))


@contract("C15", "from_matrix", fns=[A + "from_matrix"])
def from_matrix(cx):
    n = cx.size("n", lo=1, hi=6) if cx.concrete else cx.size("n", lo=1)
    kind = cx.pick("dtype", ["<f8", "<i4", "<?"])
    m = {"<f8": lambda: cx.floats("m", (n, n)),
         "<i4": lambda: cx.ints("m", (n, n), "<i4", -3, 3),
         "<?": lambda: cx.bools("m", (n, n))}[kind]()
    mat = m.arr
    if cx.concrete:
        keep = cx.bools("keep", (n, n))
        mat = (m.snap * keep.snap).astype(kind)
    given = mat.copy()
    weighted = cx.pick("weighted", ["default", True, False])
    kw = {} if weighted == "default" else {"weighted": weighted}
    adj = cx.g.AdjacencyList.from_matrix(given, **kw)
    m = len(adj)
    edges = adj.edges
    for t in cx.each(m):
        i, j = edges["src"][t], edges["dst"][t]
        cx.ensure("inside the matrix", cx.And(0 <= i, i < n, 0 <= j, j < n))
        cx.ensure("only non-zero entries", cx.Not(mat[i, j] == 0))
        for s in cx.each(m):
            cx.ensure("each once", cx.implies(s < t, cx.Not(cx.And(
                edges["src"][s] == i, edges["dst"][s] == j))))
        if weighted is True:
            cx.ensure("with their values as weights", cx.eq(
                cx.real_of(adj.weights[t]), cx.real_of(mat[i, j])))
    for i in cx.each(n):
        for j in cx.each(n):
            cx.ensure("all non-zero entries", cx.implies(
                cx.Not(mat[i, j] == 0), cx.any(m, lambda t: cx.And(
                    edges["src"][t] == i, edges["dst"][t] == j))))
            cx.ensure("the matrix is unchanged", cx.same(
                given[i, j], mat[i, j]))
    if weighted is True:
        cx.ensure_len("a weight per edge", adj.weights, m)
    else:
        cx.ensure("no weights", len(adj.weights) == 0)


@contract("C15", "weights follow their edges",
          fns=[A + "__getitem__", A + "copy"])
def weights(cx):
    n = cx.size("n", lo=1)
    e = draw_edges(cx, n)
    w = cx.floats("w", n)
    adj = cx.g.AdjacencyList(e.arr, weights=w.arr)
    how = cx.pick("how", ["mask", "int", "slice", "copy"])
    if how == "mask":
        sel = cx.bools("sel", n)
        out = adj[cx.g.MaskArray(sel.arr)]
        for j, f in enumerate(("src", "dst")):
            cx.selects("edges", n, sel, out.edges[f], lambda i: e.at(i, j))
        cx.selects("weights", n, sel, out.weights, w.at)
    else:
        i = cx.index("i", n)
        out, m, src = {
            "int": lambda: (adj[i], 1, lambda k: i),
            "slice": lambda: (adj[i:], n - i, lambda k: i + k),
            "copy": lambda: (adj.copy(), n, lambda k: k)}[how]()
        cx.ensure_len("edges", out, m)
        cx.ensure_len("weights", out.weights, m)
        for k in cx.each(m):
            for j, f in enumerate(("src", "dst")):
                cx.ensure("edges", cx.same(out.edges[f][k],
                                           e.at(src(k), j)))
            cx.ensure("weights", cx.same(out.weights[k], w.at(src(k))))
    cx.ensure("an AdjacencyList", type(out) is cx.g.AdjacencyList)
    cx.unchanged("edges", e)
    cx.unchanged("weights", w)


# ------------------------------------------------------------------ C16
def reach(rows, v):
    """Vertices reachable from v, itself included."""
    seen, todo = {v}, [v]
    while todo:
        u = todo.pop()
        for s, d in rows:
            if s == u and d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def descendants(rows, v):
    if not any(s == v for s, d in rows):
        return [d == v for s, d in rows]
    r = reach(rows, v)
    return [s in r for s, d in rows]


def each_mask(cx, name, n, out, want):
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_shape(name, out.data, (n,))
    for k in cx.each(n):
        cx.ensure(name, cx.iff(out.data[k], want(k)))


@contract("C16", "vertex_descendants", weight=2,
          fns=[S + "vertex_descendants"])
def vertex_descendants(cx):
    n = cx.size("n", lo=1)
    e = draw_edges(cx, n)
    kw = {}
    if cx.pick("weighted", [False, True]):
        kw["weights"] = cx.floats("w", n).arr
    adj = cx.g.AdjacencyList(e.arr, **kw)
    for v in start_vertices(cx, n, e):
        inside = cx.closed_set(n, e, v)
        out = cx.g.select.vertex_descendants(adj, v)
        descends(cx, n, e, v, out, inside)
        if cx.concrete:
            rows = e.snap.tolist()
            cx.ensure("exactly the edges reachable",
                      out.data.tolist() == descendants(rows, v),
                      f"from {v} in {rows}: {out.data.tolist()}")
    cx.unchanged("edges", e)


def start_vertices(cx, n, e):
    if cx.symbolic:
        return [cx.int("v")]
    k = cx.index("edge", n)
    return [e.at(k, 0), e.at(k, 1), cx.int("other", -9, 9)]


def descends(cx, n, e, v, out, inside, also=lambda k: False):
    """out marks the edges out of the least set of vertices which has v
    and is closed under the edges; inside: any set like that."""
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_shape("a flag per edge", out.data, (n,))
    starts = cx.any(n, lambda i: e.at(i, 0) == v)
    m = out.data
    for k in cx.each(n):
        cx.ensure("of a vertex without outgoing edges: those into it",
                  cx.implies(cx.Not(starts), cx.iff(m[k], cx.Or(
                      also(k), e.at(k, 1) == v))))
        cx.ensure("the edges out of it", cx.implies(
            e.at(k, 0) == v, m[k]))
        cx.ensure("only what is reached from it", cx.implies(
            cx.And(starts, m[k]), cx.Or(also(k), inside(e.at(k, 0)))))
        cx.ensure("the parent", cx.implies(also(k), m[k]))
        for i in cx.each(n):
            cx.ensure("what leaves the end of a member is a member",
                      cx.implies(cx.And(starts, m[k], cx.Not(also(k)),
                                        e.at(i, 0) == e.at(k, 1)), m[i]))


@contract("C16", "edge_descendants", fns=[S + "edge_descendants"])
def edge_descendants(cx):
    n = cx.size("n", lo=1)
    e = draw_edges(cx, n)
    adj = cx.g.AdjacencyList(e.arr)
    k = cx.index("edge", n)
    s, d = e.at(k, 0), e.at(k, 1)
    edge = cx.g.VertexPair(s, d) if cx.pick("named", [True, False]) \
        else (s, d)
    inside = cx.closed_set(n, e, d)
    out = cx.g.select.edge_descendants(adj, edge)
    descends(cx, n, e, d, out, inside, lambda i: cx.And(
        e.at(i, 0) == s, e.at(i, 1) == d))
    if cx.concrete:
        rows = e.snap.tolist()
        base = descendants(rows, d)
        want = [b or r == [s, d] for b, r in zip(base, rows)]
        cx.ensure("the edge and its descendants", out.data.tolist() == want,
                  f"from {edge} in {rows}: {out.data.tolist()}")
    cx.unchanged("edges", e)


@contract("C16", "hadron_vertices", fns=[S + "hadron_vertices"])
def hadron_vertices(cx):
    n = cx.size("n", lo=1)
    e = draw_edges(cx, n)
    st = cx.ints("status", n, "<i2", -100, 100,
                 pool=[80, -80, 81, 83, 84, 85, 89, 90, -90, 91, 79, -91,
                       62, 23, 71])
    out = cx.g.select.hadron_vertices(cx.g.AdjacencyList(e.arr),
                                      cx.g.StatusArray(st.arr))
    hadronic = lambda k: cx.And(80 <= abs(st.at(k)), abs(st.at(k)) <= 90)
    cx.ensure("a tuple", isinstance(out, tuple))
    m = len(out)
    for k in cx.each(n):
        cx.ensure("each source vertex is listed", cx.implies(
            hadronic(k), cx.any(m, lambda t: out[t] == e.at(k, 0))))
    for t in cx.each(m):
        cx.ensure("of ints", type(out[t]) is int)
        cx.ensure("only source vertices", cx.any(n, lambda k: cx.And(
            hadronic(k), e.at(k, 0) == out[t])))
        for s in cx.each(m):
            cx.ensure("once each", cx.implies(s < t, cx.Not(
                out[s] == out[t])))
    cx.unchanged("edges", e)
    cx.unchanged("status", st)


class Event:
    """A random collision: hard process, shower, hadronisation."""

    def __init__(self, rng, depth=3, shower=True):
        self.rng, self.n = rng, 0
        self.rows, self.pdg, self.status = [], [], []
        self.next_in, self.next_fin = -1, 1
        hard = None
        b1, b2 = self.vtx(), self.vtx()
        self.edge(0, b1, 2212, -12)
        self.edge(0, b2, 2212, -12)
        hv = self.vtx()
        self.ends = []                      # partons to hadronise
        if rng.random() < 0.5 and shower:
            # initial-state radiation
            m = self.vtx()
            self.edge(b1, m, 21, -41)
            self.edge(m, hv, 21, -21)
            self.ends.append((m, 21, 43))
        else:
            self.edge(b1, hv, 21, -21)
        self.edge(b2, hv, -1, -21)
        for _ in range(int(rng.integers(1, 4))):
            self.hard(hv, depth)
        self.hadronise(shower)
        order = rng.permutation(len(self.rows)) if rng.random() < 0.3 \
            else range(len(self.rows))
        self.rows = [self.rows[i] for i in order]
        self.pdg = [self.pdg[i] for i in order]
        self.status = [self.status[i] for i in order]

    def vtx(self):
        self.next_in -= 1
        return self.next_in + 1

    def leaf(self):
        self.next_fin += 1
        return self.next_fin - 1

    def edge(self, s, d, pdg, status):
        self.rows.append([s, d])
        self.pdg.append(pdg)
        self.status.append(status)

    def hard(self, src, depth):
        rng = self.rng
        if depth > 0 and rng.random() < 0.45:
            v = self.vtx()
            pdg = int(rng.choice([6, -6, 24, -24, 23, 25]))
            self.edge(src, v, pdg, -22)
            v = self.copies(v, pdg, 44, hard=False)
            for _ in range(int(rng.integers(1, 4))):
                self.hard(v, depth - 1)
            return
        st = 24 if rng.random() < 0.05 else 23
        pdg = int(rng.choice([1, 2, 3, 4, 5, -1, -2, -5, 21, 11, -11, 13,
                              22, 12]))
        if abs(pdg) > 10 and pdg != 21:
            self.edge(src, self.leaf(), pdg, st)
            return
        if rng.random() < 0.1:
            self.edge(src, self.leaf(), pdg, st)
            return
        v = self.vtx()
        self.edge(src, v, pdg, -st)
        v = self.copies(v, pdg, 51)
        self.ends.append((v, pdg, 71))

    def copies(self, v, pdg, status, hard=True):
        for _ in range(int(self.rng.integers(0, 3))):
            u = self.vtx()
            self.edge(v, u, pdg, -status)
            if self.rng.random() < 0.6:
                self.ends.append((v, 21, 51 if hard else 43))
            v = u
        return v

    def hadronise(self, shower):
        rng = self.rng
        ends = list(self.ends)
        rng.shuffle(ends)
        while ends:
            k = min(len(ends), int(rng.integers(1, 5)))
            group, ends = ends[:k], ends[k:]
            if not shower or rng.random() < 0.1:
                for v, pdg, st in group:
                    self.edge(int(v), self.leaf(), int(pdg), int(st))
                continue
            h = self.vtx()
            for v, pdg, st in group:
                self.edge(int(v), h, int(pdg), -int(st))
            for _ in range(int(rng.integers(1, 5))):
                st = int(rng.choice([83, 84, 81, 90, 80]))
                if rng.random() < 0.3:
                    u = self.vtx()
                    self.edge(h, u, 111, -st)
                    for _ in range(2):
                        self.edge(u, self.leaf(), 22, 91)
                else:
                    self.edge(h, self.leaf(), 211, st)


def collision(cx, depth=3, shower=True):
    def make():
        ev = Event(cx.rng, depth, shower)
        return {"edges": ev.rows, "pdg": ev.pdg, "status": ev.status}
    d = cx._draw("event", make)
    rows, pdg, status = d["edges"], d["pdg"], d["status"]
    srcs = {s for s, _ in rows}
    final = [t not in srcs for _, t in rows]
    n = len(rows)
    np = cx.np
    pmu = cx.momenta("pmu", n, kind="transverse", tiny=False)
    graph = cx.g.Graphicle.from_numpy(
        pdg=np.array(pdg), pmu=pmu.arr,
        color=np.zeros((n, 2), "<i4"), helicity=np.zeros(n, "<i2"),
        status=np.array(status), final=np.array(final),
        edges=np.array(rows))
    return graph, rows, pdg, status, final


def snapshot(graph):
    return [a.tobytes() for a in (
        graph.pdg.data, graph.pmu._data, graph.color._data,
        graph.status.data, graph.final.data, graph.adj._data)]


def hard_idx(status):
    return [i for i, s in enumerate(status) if abs(s) in (22, 23, 24)]


def keys_of(cx, pdg, idx):
    """Particle names, numbered where repeated."""
    base = [str(v) for v in cx.g.PdgArray([pdg[i] for i in idx]).name]
    out, seen = [], {}
    for b in base:
        if base.count(b) == 1:
            out.append(b)
        else:
            out.append(f"{b}:{seen.setdefault(b, 0)}")
            seen[b] += 1
    return out


def own(rows, i):
    m = descendants(rows, rows[i][1])
    m[i] = True
    return m


@contract("C16", "hard_descendants", mode="concrete", why=WHY, weight=2,
          fns=[S + "hard_descendants", S + "_pdgs_to_keys"])
def hard_descendants(cx):
    graph, rows, pdg, status, final = collision(cx)
    idx = hard_idx(status)
    target = cx.pick("target", [None, {6}, {24}, {21}, {5, -5}, {1, 2},
                                {-6, 6}, {-1}, {11, 6, 24}, {4}])
    signed = cx.pick("sign_sensitive", [False, True])
    strict = cx.pick("strict", [True, False])
    form = cx.pick("form", [set, tuple, list])
    before = snapshot(graph)
    call = lambda: cx.g.select.hard_descendants(
        graph, None if target is None else form(target),
        sign_sensitive=signed, strict=strict)
    if target is not None:
        want_t = set(target) if signed else {abs(t) for t in target}
        code = (lambda p: p) if signed else abs
        idx = [i for i in idx if code(pdg[i]) in want_t]
        missing = want_t - {code(pdg[i]) for i in idx}
        if not idx or (strict and missing):
            cx.ensure("ValueError for missing targets",
                      cx.raises(ValueError, call) is not None)
            return
    if not idx:
        return
    out = call()
    cx.ensure("a MaskGroup", type(out) is cx.g.MaskGroup)
    cx.ensure("one uniquely named mask per parton",
              list(out.keys()) == keys_of(cx, pdg, idx),
              f"{list(out.keys())}")
    for key, i in zip(out.keys(), idx):
        cx.ensure("the parton and its descendants",
                  out[key].data.tolist() == own(rows, i),
                  f"{key}: {out[key].data.tolist()}")
    cx.ensure("the event is unchanged", snapshot(graph) == before)


# ------------------------------------------------------------------ C17
def parents(rows, idx):
    """Closest hard ancestor of each hard parton."""
    desc = {i: own(rows, i) for i in idx}
    par = {}
    for i in idx:
        anc = [j for j in idx if j != i and desc[j][i]]
        par[i] = min(anc, key=lambda j: sum(desc[j])) if anc else None
    return desc, par


def check_tree(cx, name, group, wanted, names, desc, par):
    kids = {i: [j for j in names if par[j] == i] for i in names}
    keys = [k for k in group.keys() if k != "latent"]
    cx.ensure(name + ": every parton once, under its closest ancestor",
              sorted(keys) == sorted(names[i] for i in wanted),
              f"{keys} != {[names[i] for i in wanted]}")
    for i in wanted:
        got = group[names[i]]
        if not kids[i]:
            cx.ensure("leaf", type(got) is cx.g.MaskArray)
            cx.ensure("a leaf is the parton and its descendants",
                      got.data.tolist() == desc[i])
            continue
        cx.ensure("a group for a parent", type(got) is cx.g.MaskGroup)
        check_tree(cx, names[i], got, kids[i], names, desc, par)
        union = [any(desc[j][k] for j in kids[i])
                 for k in range(len(desc[i]))]
        cx.ensure("latent is the parent minus its children",
                  got["latent"].data.tolist()
                  == [a and not b for a, b in zip(desc[i], union)])
        cx.ensure("aggregated by or", got.agg_op.value == "or")
        cx.ensure("children and latent make up the parent",
                  got.data.tolist() == desc[i])


@contract("C17", "hierarchy", mode="concrete", why=WHY, weight=2,
          fns=[S + "hierarchy", S + "_make_tree", S + "_flat_hierarchy",
               S + "_hard_parent_matrix", S + "_hard_ancestor_matrix",
               S + "_hard_parent_dict", S + "hard_descendants"])
def hierarchy(cx):
    graph, rows, pdg, status, final = collision(cx)
    idx = hard_idx(status)
    before = snapshot(graph)
    if cx.bool("given"):
        given = cx.g.select.hard_descendants(graph)
        kept = {k: v.data.copy() for k, v in given.items()}
        out = cx.g.select.hierarchy(graph, given)
        cx.ensure("the masks given are unchanged",
                  list(given) == list(kept) and all(
                      (given[k].data == kept[k]).all() for k in kept))
    else:
        out = cx.g.select.hierarchy(graph)
    names = dict(zip(idx, keys_of(cx, pdg, idx)))
    desc, par = parents(rows, idx)
    check_tree(cx, "hierarchy", out, [i for i in idx if par[i] is None],
               names, desc, par)
    cx.ensure("no latent at the top", "latent" not in out)
    cx.ensure("the event is unchanged", snapshot(graph) == before)


def tree_of(cx, g):
    return [(k, tree_of(cx, v) if isinstance(v, cx.g.MaskGroup) else
             v.data.tolist()) for k, v in g.items()]


def leaves_of(cx, g):
    for k, v in g.items():
        if k == "latent":
            continue
        if isinstance(v, cx.g.MaskGroup):
            yield from leaves_of(cx, v)
        else:
            yield k, v


def expected_partition(cx, graph, rows, status, final, hier, pt_exp):
    np = cx.np
    x, y, z = graph.pmu.x, graph.pmu.y, graph.pmu.z
    pt = np.hypot(x, y)
    eta = np.arcsinh(z / pt)
    phi = np.arctan2(y, x)
    every = hier.bitwise_or().data
    n = len(rows)
    leaves = {k: v.data.copy() for k, v in leaves_of(cx, hier)}
    vts = sorted({s for (s, d), c in zip(rows, status)
                  if 80 <= abs(c) <= 90})
    for v in vts:
        inc = [i for i in range(n) if rows[i][1] == v]
        if not any(every[i] for i in inc):
            continue
        d = descendants(rows, v)
        for k in [k for k in range(n) if d[k] and final[k]]:
            dist = []
            for i in inc:
                dphi = (phi[i] - phi[k] + np.pi) % (2 * np.pi) - np.pi
                dist.append(pt[i] ** pt_exp
                            * np.hypot(eta[i] - eta[k], dphi))
            s = sorted(dist)
            if len(s) > 1 and s[1] - s[0] < 1e-9 * max(1.0, s[1]):
                return None                     # a tie: either will do
            best = inc[int(np.argmin(dist))]
            for name, m in leaves.items():
                if any(m[i] for i in inc):
                    m[k] = m[best]
    return leaves


@contract("C17", "partition_descendants", mode="concrete", why=WHY,
          weight=2.5,
          fns=[S + "partition_descendants", S + "_partition_vertex",
               S + "_hadron_vtx_parton_iter", S + "_leaf_mask_iter",
               "graphicle.matrix.parton_hadron_distance"])
def partition_descendants(cx):
    graph, rows, pdg, status, final = collision(cx)
    hier = cx.g.select.hierarchy(graph)
    flat = cx.bool("flat")
    if flat:
        hier = cx.g.select.hard_descendants(graph)
    pt_exp = cx.real("pt_exp", -1.0, 1.0, special=(-0.1, 0.0, 0.5))
    kw = {"pt_exp": pt_exp}
    if cx.bool("default"):
        kw, pt_exp = {}, -0.1
    want = expected_partition(cx, graph, rows, status, final, hier, pt_exp)
    if want is None:
        return
    kept, before = tree_of(cx, hier), snapshot(graph)
    out = cx.g.select.partition_descendants(graph, hier, **kw)
    cx.ensure("the input is unchanged", tree_of(cx, hier) == kept)
    cx.ensure("the event is unchanged", snapshot(graph) == before)

    def shape(t):
        return [(k, shape(v) if v and isinstance(v[0], tuple) else 0)
                for k, v in t]
    cx.ensure("the tree keeps its shape",
              shape(tree_of(cx, out)) == shape(kept))

    def latents(t, path=()):
        for k, v in t:
            if v and isinstance(v[0], tuple):
                yield from latents(v, path + (k,))
            elif k == "latent":
                yield path, v
    cx.ensure("latent masks are unchanged",
              list(latents(tree_of(cx, out))) == list(latents(kept)))
    got = dict(leaves_of(cx, out))
    for name, m in want.items():
        cx.ensure("each hadron goes to the leaf of its nearest parton",
                  got[name].data.tolist() == m.tolist(),
                  f"{name}: {got[name].data.tolist()} != {m.tolist()}")


# ------------------------------------------------------------------ C18
@contract("C18", "color_singlets", mode="concrete", weight=1.5,
          why="sets of tuples over combinations of an unbounded family",
          fns=[S + "color_singlets"])
def color_singlets(cx):
    np = cx.np
    c = cx.int("partons", 1, 6)
    n = c + cx.int("others", 0, 4)

    def make():
        where = cx.rng.permutation(n)[:c]
        col = cx.rng.choice([0, 101, 102, 103], size=(n, 2))
        for i in range(n):
            r = cx.rng.random()
            if r < 0.35:
                col[i, 1] = 0
            elif r < 0.7:
                col[i, 0] = 0
        return {"where": where.tolist(), "color": col.tolist()}
    d = cx._draw("event", make)
    where, col = d["where"], d["color"]
    status = np.full(n, 62)
    status[where] = 23
    sign = cx.bools("sign", n)
    status[sign.snap] *= -1
    extra = cx.bools("extra", (c, n))
    masks = {}
    for i, w in enumerate(where):
        m = extra.snap[i].copy()
        m[where] = False
        m[w] = True
        masks[f"p{i}"] = m
    leaves = cx.g.MaskGroup(masks, "or")
    color = np.array(col, dtype="<i4")
    invert = cx.pick("invert", ["default", True, False])
    kw = {} if invert == "default" else {"invert": invert}
    out = cx.g.select.color_singlets(leaves, cx.g.StatusArray(status),
                                     cx.g.ColorArray(color), **kw)
    col_of = {f"p{i}": tuple(col[w]) for i, w in enumerate(where)}
    coloured = [k for k in col_of if col_of[k] != (0, 0)]
    want = [g for r in (2, 3) for g in it.combinations(coloured, r)
            if {col_of[k][0] for k in g} == {col_of[k][1] for k in g}]
    norm = lambda gs: sorted(tuple(sorted(g)) for g in gs)
    if invert is True:
        members = {k for g in want for k in g}
        want = [(k,) for k in coloured if k not in members]
        cx.ensure("coloured partons in no singlet", norm(out) == norm(want),
                  f"{out} != {want}")
    else:
        cx.ensure("the pairs and triples that close",
                  norm(out) == norm(want), f"{out} != {want}")
    for k, m in masks.items():
        cx.ensure("leaves are unchanged",
                  (leaves[k].data == m).all())


# ------------------------------------------------------------------ C24
@contract("C24", "find_vertex", mode="concrete", why=WHY, weight=2,
          fns=[S + "find_vertex"])
def find_vertex(cx):
    style = cx.pick("style", ["edges", "event"])
    if style == "event":
        graph, rows, pdg, *_ = collision(cx, depth=2)
        n = len(rows)
    else:
        n = cx.size("n", lo=1)
        e = draw_edges(cx, n)
        rows = e.snap.tolist()
        pdg = cx.ints("pdg", n, "<i4", -6, 6).snap.tolist()
        graph = cx.g.Graphicle.from_numpy(pdg=cx.np.array(pdg),
                                          edges=e.arr)
    inc, out = {}, {}
    for (s, d), p in zip(rows, pdg):
        inc.setdefault(d, set()).add(p)
        out.setdefault(s, set()).add(p)
    ids = sorted(set(inc) | set(out))

    def ask(name, at):
        kind = cx.pick(name, [None, "some", "some", "any"])
        if kind is None:
            return None
        pool = sorted(at.get(ids[cx.index(name + " at", len(ids))], set()))
        k = cx.int(name + " count", 0, 2)
        if kind == "any":
            pool = sorted(set(pdg))
        return set(pool[:k])
    qi, qo = ask("in", inc), ask("out", out)
    before = snapshot(graph)
    call = lambda: cx.g.select.find_vertex(graph, qi, qo)
    if qi is None and qo is None:
        cx.ensure("ValueError when neither set is given",
                  cx.raises(ValueError, call) is not None)
        return
    got = call()
    want = [v for v in ids if (qi or set()) <= inc.get(v, set())
            and (qo or set()) <= out.get(v, set())]
    cx.ensure("exactly the vertices with those particles",
              sorted(int(v) for v in got) == want, f"{got} != {want}")
    cx.ensure("the event is unchanged", snapshot(graph) == before)
