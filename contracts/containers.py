"""C11 containers, C12 composites, C13 arithmetic and comparison."""
from types import SimpleNamespace

from vc.contract import contract

GD = "graphicle.data."

# class: (columns, dtype, element dtype kind, structured field names)
KINDS = {
    "MomentumArray": (4, "<f8", ("x", "y", "z", "e")),
    "ColorArray": (2, "<i4", ("color", "anticolor")),
    "AdjacencyList": (2, "<i4", ("src", "dst")),
    "PdgArray": (1, "<i4", None),
    "HelicityArray": (1, "<i2", None),
    "StatusArray": (1, "<i2", None),
    "MaskArray": (1, "<?", None),
}
PDGS = [21, 1, -1, 2, -2, 3, 4, 5, -5, 6, -6, 11, -11, 13, 22, 23, 24, -24,
        25, 211, -211, 111, 2212, 0]
STATUS = [-11, 21, -21, 22, -22, 23, -23, 24, -24, 41, 51, 52, 62, 71, 80,
          83, 84, 90, 91, -82, 2, 1, -1, 3, -2, -9, 0, 7, 100]


def draw(cx, cls, name, n):
    cols, dt, _ = KINDS[cls]
    shape = (n, cols) if cols > 1 else (n,)
    if cls == "MomentumArray":
        return cx.floats(name, shape)
    if cls == "MaskArray":
        return cx.bools(name, n)
    if cls == "AdjacencyList":
        return cx.ints(name, shape, dt, -7, 7)
    pool = {"PdgArray": PDGS, "StatusArray": STATUS}.get(cls)
    return cx.ints(name, shape, dt, -9, 9, pool=pool)


def make(cx, cls, arr, **kw):
    return getattr(cx.g, cls)(arr, **kw)


def columns(cls, obj):
    """The data of a container as one array per column."""
    cols, dt, fields = KINDS[cls]
    d = obj.data
    return [d] if fields is None else [d[f] for f in fields]


def at(cls, cin, k, j):
    return cin.at(k, j) if KINDS[cls][0] > 1 else cin.at(k)


def holds(cx, name, cls, obj, n, want):
    """obj is a cls with n rows, column j of row k being want(k, j)."""
    cx.ensure(name + ": type", type(obj) is getattr(cx.g, cls),
              f"{type(obj)}")
    cx.ensure_len(name, obj, n)
    for j, c in enumerate(columns(cls, obj)):
        cx.ensure_shape(name + f": column {j}", c, (n,))
        cx.ensure(name + ": dtype", cx.dtype_is(c, KINDS[cls][1]))
        for k in cx.each(n):
            cx.ensure(name + ": values", cx.same(c[k], want(k, j)))


def each_class(cx, names=tuple(KINDS)):
    return cx.pick("class", list(names))


INIT = [GD + c + ".__attrs_init__" for c in KINDS] + [GD + "_array_field"]
ITEM = [GD + c + ".__getitem__" for c in KINDS]


# ------------------------------------------------------------------ C11
@contract("C11", "construction", weight=1.5,
          fns=INIT + [GD + c + ".data" for c in KINDS])
def construction(cx):
    cls = each_class(cx)
    n = cx.size("n")
    a = draw(cx, cls, "a", n)
    cols = KINDS[cls][0]
    form = cx.pick("form", ["array", "list", "column"])
    if form == "list":
        if cx.symbolic:
            return
        obj = make(cx, cls, a.snap.tolist())
    elif form == "column" and cols == 1:
        obj = make(cx, cls, a.arr.reshape(-1, 1))
    else:
        obj = make(cx, cls, a.arr)
    holds(cx, "constructed", cls, obj, n, lambda k, j: at(cls, a, k, j))
    if cx.concrete:
        cx.ensure("array conversion", cx.same_bytes(
            cx.np.asarray(obj).ravel().view(KINDS[cls][1]),
            a.snap.ravel()))
    cx.ensure("truth is being non-empty", cx.iff(bool(obj), cx.lt(0, n)))
    cx.unchanged("values given", a)


@contract("C11", "empty", fns=INIT)
def empty(cx):
    cls = each_class(cx)
    obj = make(cx, cls, cx.np.zeros((0,), KINDS[cls][1])) \
        if cx.pick("given", [False, True]) else getattr(cx.g, cls)()
    cx.ensure("no rows", len(obj) == 0)
    cx.ensure("false", not bool(obj))
    if cx.concrete:
        cx.ensure("no data", cx.np.asarray(obj.data).size == 0)
        cx.ensure("serialize is empty", obj.serialize() == ())
        cx.ensure("copy is empty", len(obj.copy()) == 0)


@contract("C11", "one row", fns=INIT)
def one_row(cx):
    cls = each_class(cx, [c for c in KINDS if KINDS[c][0] > 1])
    cols = KINDS[cls][0]
    a = draw(cx, cls, "a", 1)
    obj = make(cx, cls, a.arr.reshape(-1))
    holds(cx, "a flat array is one row", cls, obj, 1,
          lambda k, j: a.at(0, j))


ALIASES = {"x": ("x", "px"), "y": ("y", "py"), "z": ("z", "pz"),
           "e": ("e", "pe", "E")}
PERMS4 = [(0, 1, 2, 3), (3, 0, 1, 2), (3, 2, 1, 0), (1, 0, 3, 2),
          (2, 3, 0, 1), (0, 2, 1, 3), (1, 2, 3, 0)]


@contract("C11", "structured momenta", weight=1.5,
          fns=[GD + "_reorder_pmu", GD + "MomentumArray.__attrs_init__"])
def structured_pmu(cx):
    n = cx.size("n")
    c = {f: cx.floats(f, n) for f in "xyze"}
    perm = cx.pick("order", PERMS4)
    names = {f: ALIASES[f][cx.pick("name of " + f,
                                   list(range(len(ALIASES[f]))))]
             for f in "xyze"}
    s = cx.structured({names["xyze"[i]]: c["xyze"[i]] for i in perm}, "<f8")
    p = cx.g.MomentumArray(s)
    holds(cx, "placed by name", "MomentumArray", p, n,
          lambda k, j: c["xyze"[j]].at(k))
    for f, g in zip("xyz", (p.x, p.y, p.z)):
        for k in cx.each(n):
            cx.ensure("component " + f, cx.same(g[k], c[f].at(k)))
    if cx.concrete:
        p.data = s
        holds(cx, "assigned by name", "MomentumArray", p, n,
              lambda k, j: c["xyze"[j]].at(k))


@contract("C11", "structured edges",
          fns=[GD + "_reorder_edges", GD + "AdjacencyList.__attrs_init__"])
def structured_edges(cx):
    n = cx.size("n")
    c = {f: cx.ints(f, n, "<i4", -9, 9) for f in ("src", "dst")}
    names = {"src": cx.pick("src name", ["in", "src"]),
             "dst": cx.pick("dst name", ["out", "dst"])}
    order = cx.pick("order", [("src", "dst"), ("dst", "src")])
    s = cx.structured({names[f]: c[f] for f in order}, "<i4")
    obj = cx.g.AdjacencyList(s)
    holds(cx, "placed by name", "AdjacencyList", obj, n,
          lambda k, j: c[("src", "dst")[j]].at(k))
    for f in ("src", "dst"):
        for k in cx.each(n):
            cx.ensure("edges", cx.same(obj.edges[f][k], c[f].at(k)))


@contract("C11", "structured colours",
          fns=[GD + "ColorArray.__attrs_init__"])
def structured_color(cx):
    n = cx.size("n")
    c = {f: cx.ints(f, n, "<i4", 0, 600) for f in ("color", "anticolor")}
    obj = cx.g.ColorArray(cx.structured(c, "<i4"))
    holds(cx, "fields", "ColorArray", obj, n,
          lambda k, j: c[("color", "anticolor")[j]].at(k))
    for f in c:
        for k in cx.each(n):
            cx.ensure(f, cx.same(getattr(obj, f)[k], c[f].at(k)))


@contract("C11", "columns", fns=[GD + "_array_field"])
def wrong_columns(cx):
    cls = each_class(cx)
    n = cx.size("n", lo=1)
    cols = cx.pick("columns", [1, 2, 3, 4, 5, 6])
    want = KINDS[cls][0]
    if cls == "MaskArray":
        a = cx.bools("a", (n, cols))
    elif cls == "MomentumArray":
        a = cx.floats("a", (n, cols))
    else:
        a = cx.ints("a", (n, cols), KINDS[cls][1])
    # a single column of the right height reads as one flat row
    cx.assume(cx.Not(cols == 1) if want > 1 else True)
    err = cx.raises(ValueError, lambda: make(cx, cls, a.arr))
    cx.ensure("ValueError exactly for a wrong number of columns",
              cx.iff(err is not None, cols != want))


@contract("C11", "indexing", weight=2.5, fns=ITEM, timeout=200)
def indexing(cx):
    cls = each_class(cx)
    n = cx.size("n", lo=1)
    a = draw(cx, cls, "a", n)
    obj = make(cx, cls, a.arr)
    how = cx.pick("how", ["int", "negative", "slice", "step", "list",
                          "bool", "mask", "group"])
    w = None
    if cls == "AdjacencyList" and cx.pick("weighted", [False, True]):
        w = cx.floats("w", n)
        obj = make(cx, cls, a.arr, weights=w.arr)
    if how in ("int", "negative"):
        i = cx.index("i", n)
        out = obj[i] if how == "int" else obj[i - n]
        m, src = 1, lambda k: i
    elif how == "slice":
        i = cx.index("i", n)
        out = obj[i:]
        m, src = n - i, lambda k: i + k
    elif how == "step":
        if cx.symbolic:
            out, m, src = obj[::-1], n, lambda k: n - 1 - k
        else:
            sl = slice(cx.pick("start", [None, 0, 1, -2]),
                       cx.pick("stop", [None, 3, -1]),
                       cx.pick("step", [1, 2, -1, -2]))
            idx = list(range(n))[sl]
            out, m, src = obj[sl], len(idx), idx.__getitem__
    elif how == "list":
        m = cx.size("m", lo=1)
        idx = cx.ints("idx", m, "<i8", 0, n - 1) if cx.concrete else \
            cx.indices("idx", m, n)
        form = cx.pick("index form", ["array", "list"])
        if cx.symbolic and form == "list":
            return
        out = obj[idx.arr if form == "array" else idx.snap.tolist()]
        src = idx.at
    else:
        sel = cx.bools("sel", n)
        key = {"bool": sel.arr, "mask": cx.g.MaskArray(sel.arr),
               "group": cx.g.MaskGroup({"u": cx.g.MaskArray(sel.arr)}, "or")
               }[how]
        out = obj[key]
        cx.ensure("same type", type(out) is getattr(cx.g, cls))
        for j, c in enumerate(columns(cls, out)):
            cx.selects("exactly the addressed rows, in order", n, sel, c,
                       lambda i: at(cls, a, i, j))
        if w is not None:
            cx.selects("their weights", n, sel, out.weights, w.at)
        cx.unchanged("operand", a)
        return
    holds(cx, "indexed", cls, out, m, lambda k, j: at(cls, a, src(k), j))
    if w is not None:
        cx.ensure_len("their weights", out.weights, m)
        for k in cx.each(m):
            cx.ensure("their weights", cx.same(out.weights[k],
                                               w.at(src(k))))
    elif cls == "AdjacencyList":
        cx.ensure_len("no weights appear", out.weights, 0)
    cx.unchanged("operand", a)


@contract("C11", "copy", fns=[GD + c + ".copy" for c in KINDS])
def copy(cx):
    cls = each_class(cx)
    n = cx.size("n")
    a = draw(cx, cls, "a", n)
    kw = {}
    if cls == "AdjacencyList" and cx.pick("weighted", [False, True]):
        w = cx.floats("w", n)
        kw = {"weights": w.arr}
    obj = make(cx, cls, a.arr, **kw)
    c = obj.copy()
    cx.ensure("a new object", c is not obj)
    holds(cx, "copy", cls, c, n, lambda k, j: at(cls, a, k, j))
    for u in columns(cls, c):
        for v in columns(cls, obj):
            cx.ensure("no shared memory", cx.Not(cx.shares(u, v)))
        cx.ensure("no shared memory", cx.Not(cx.shares(u, a.arr)))
    if kw:
        for k in cx.each(n):
            cx.ensure("weights are copied",
                      cx.same(c.weights[k], w.at(k)))
        cx.ensure("no shared weights",
                  cx.Not(cx.shares(c.weights, obj.weights)))
        cx.ensure_len("weights", c.weights, n)
    cx.unchanged("operand", a)


@contract("C11", "assignment of data",
          fns=[GD + c + ".data" for c in KINDS])
def set_data(cx):
    cls = each_class(cx, [c for c in KINDS if c != "AdjacencyList"])
    n, m = cx.size("n"), cx.size("m")
    a, b = draw(cx, cls, "a", n), draw(cx, cls, "b", m)
    obj = make(cx, cls, a.arr)
    obj.data = b.arr
    holds(cx, "assigned", cls, obj, m, lambda k, j: at(cls, b, k, j))
    cx.unchanged("values given", b)
    cx.unchanged("former values", a)


def rows_are(cx, name, cls, rows, n, a):
    """rows lists the rows of the drawn array as plain Python values."""
    names = KINDS[cls][2]
    cx.ensure_len(name, rows, n)
    plain = PLAIN.get(cls, int)
    for k in cx.each(n):
        row = rows[k]
        if names:
            cx.ensure(name + ": a row is a tuple", isinstance(row, tuple)
                      and len(row) == len(names))
            for i, f in enumerate(names):
                cx.ensure(name + ": rows have named fields",
                          getattr(row, f) is row[i])
        else:
            row = (row,)
        for j, v in enumerate(row):
            cx.ensure(name + ": plain Python values", type(v) is plain,
                      f"{type(v)}")
            cx.ensure(name + ": the rows in order",
                      cx.same(v, at(cls, a, k, j)))


PLAIN = {"MomentumArray": float, "MaskArray": bool}


@contract("C11", "serialize", weight=1.2,
          fns=[GD + c + ".serialize" for c in KINDS]
          + [GD + c + ".__iter__" for c in KINDS])
def serialize(cx):
    cls = each_class(cx)
    n = cx.size("n")
    a = draw(cx, cls, "a", n)
    obj = make(cx, cls, a.arr)
    rows_are(cx, "iteration", cls, list(obj), n, a)
    s = obj.serialize()
    cx.ensure("serialize gives a tuple", isinstance(s, tuple))
    rows_are(cx, "serialize", cls, s, n, a)
    back = make(cx, cls, s)
    holds(cx, "rebuilt", cls, back, n, lambda k, j: at(cls, a, k, j))
    cx.unchanged("operand", a)


# ------------------------------------------------------------------ C12
ATTRS = {"pdg": "PdgArray", "pmu": "MomentumArray", "color": "ColorArray",
         "helicity": "HelicityArray", "status": "StatusArray",
         "final": "MaskArray"}
COMP = [GD + "_composite_getitem", GD + "_composite_copy",
        GD + "_composite_len", GD + "_composite_bool",
        GD + "_nonempty_dsets", GD + "_dsets"]


PRESENT = [("pdg", "pmu", "color", "helicity", "status", "final", "adj",
            "weights"),
           ("pdg", "pmu", "color", "helicity", "status", "final", "adj"),
           ("pdg", "status", "final"), ("pmu",), ("color", "adj"),
           ("adj",), ("final", "adj", "weights"), (),
           ("pmu", "helicity", "adj"), ("pdg", "color", "helicity")]


def event(cx, n, kind="Graphicle"):
    """(object, attributes present, drawn inputs)."""
    present = cx.pick("present", PRESENT)
    ins = {a: draw(cx, c, a, n) for a, c in ATTRS.items() if a in present}
    kw = {a: make(cx, ATTRS[a], ins[a].arr) for a in ins}
    p = cx.g.ParticleSet(**kw)
    if kind == "ParticleSet":
        return p, present, ins
    if "adj" in present:
        ins["adj"] = draw(cx, "AdjacencyList", "adj", n)
        w = {}
        if "weights" in present:
            ins["weights"] = cx.floats("weights", n)
            w = {"weights": ins["weights"].arr}
        return cx.g.Graphicle(particles=p, adj=make(
            cx, "AdjacencyList", ins["adj"].arr, **w)), present, ins
    return cx.g.Graphicle(particles=p), present, ins


def attr(obj, a):
    return getattr(obj, a)


def aligned(cx, name, obj, ins, m, src, kind):
    """Row k of every attribute of obj is row src(k) of the inputs."""
    for a, cls in ATTRS.items():
        got = attr(obj, a)
        if a in ins:
            holds(cx, f"{name}: {a}", cls, got, m,
                  lambda k, j: at(cls, ins[a], src(k), j))
        else:
            cx.ensure(f"{name}: {a} stays absent", len(got) == 0)
    if kind == "Graphicle":
        if "adj" in ins:
            holds(cx, name + ": adj", "AdjacencyList", obj.adj, m,
                  lambda k, j: ins["adj"].at(src(k), j))
            if "weights" in ins:
                cx.ensure_len(name + ": weights", obj.adj.weights, m)
                for k in cx.each(m):
                    cx.ensure(name + ": weights", cx.same(
                        obj.adj.weights[k], ins["weights"].at(src(k))))
            else:
                cx.ensure(name + ": no weights",
                          len(obj.adj.weights) == 0)
        else:
            cx.ensure(name + ": adj stays absent", len(obj.adj) == 0)


@contract("C12", "selection", weight=3, timeout=400,
          fns=COMP + [GD + "ParticleSet.__getitem__",
                      GD + "Graphicle.__getitem__"])
def selection(cx):
    kind = cx.pick("kind", ["ParticleSet", "Graphicle"])
    n = cx.size("n", lo=1)
    obj, present, ins = event(cx, n, kind)
    how = cx.pick("how", ["mask", "bool", "group", "slice", "list",
                          "reverse"])
    if how in ("mask", "bool", "group"):
        sel = cx.bools("sel", n)
        key = {"bool": sel.arr, "mask": cx.g.MaskArray(sel.arr),
               "group": cx.g.MaskGroup({"u": cx.g.MaskArray(sel.arr)}, "or")
               }[how]
        out = obj[key]
        cx.ensure("same type", type(out) is type(obj))
        for a, cls in ATTRS.items():
            got = attr(out, a)
            cx.ensure("attribute type", type(got) is getattr(cx.g, cls))
            if a not in ins:
                cx.ensure(f"{a} stays absent", len(got) == 0)
                continue
            for j, c in enumerate(columns(cls, got)):
                cx.selects(f"{a}: the selection, in order", n, sel, c,
                           lambda i: at(cls, ins[a], i, j))
        if kind == "Graphicle":
            if "adj" in ins:
                for j, c in enumerate(columns("AdjacencyList", out.adj)):
                    cx.selects("adj: the selection, in order", n, sel, c,
                               lambda i: ins["adj"].at(i, j))
                if "weights" in ins:
                    cx.selects("weights: the selection, in order", n, sel,
                               out.adj.weights, ins["weights"].at)
            else:
                cx.ensure("adj stays absent", len(out.adj) == 0)
    else:
        if how == "slice":
            i = cx.index("i", n)
            out, m, src = obj[i:], n - i, lambda k: i + k
        elif how == "reverse":
            out, m, src = obj[::-1], n, lambda k: n - 1 - k
        else:
            m = cx.size("m", lo=1)
            idx = cx.ints("idx", m, "<i8", 0, n - 1) if cx.concrete else \
                cx.indices("idx", m, n)
            out, src = obj[idx.arr], idx.at
        cx.ensure("same type", type(out) is type(obj))
        aligned(cx, "selection", out, ins, m, src, kind)
    aligned(cx, "original", obj, ins, n, lambda k: k, kind)
    for i in ins.values():
        cx.unchanged("original", i)


@contract("C12", "copy", weight=1.5, timeout=300,
          fns=COMP + [GD + "ParticleSet.copy", GD + "Graphicle.copy"])
def copy_composite(cx):
    kind = cx.pick("kind", ["ParticleSet", "Graphicle"])
    n = cx.size("n", lo=1)
    obj, present, ins = event(cx, n, kind)
    out = obj.copy()
    cx.ensure("same type", type(out) is type(obj) and out is not obj)
    aligned(cx, "copy", out, ins, n, lambda k: k, kind)
    for a, cls in list(ATTRS.items()) + [("adj", "AdjacencyList")]:
        if a not in ins:
            continue
        for u in columns(cls, attr(out, a)):
            cx.ensure("no shared memory", cx.Not(cx.shares(u, ins[a].arr)))
    if "weights" in ins:
        cx.ensure("no shared weights", cx.Not(cx.shares(
            out.adj.weights, ins["weights"].arr)))
    for i in ins.values():
        cx.unchanged("original", i)


@contract("C12", "construction", weight=1.5, timeout=300,
          fns=[GD + "ParticleSet.from_numpy", GD + "Graphicle.from_numpy",
               GD + "Graphicle.from_event"])
def from_arrays(cx):
    n = cx.size("n", lo=1)
    how = cx.pick("how", ["ParticleSet", "Graphicle", "event",
                          "event with masks"])
    kind = "ParticleSet" if how == "ParticleSet" else "Graphicle"
    present = cx.pick("present", PRESENT)
    ins = {a: draw(cx, c, a, n) for a, c in ATTRS.items() if a in present}
    if kind == "Graphicle" and "adj" in present:
        ins["adj"] = draw(cx, "AdjacencyList", "adj", n)
        if "weights" in present and how == "Graphicle":
            ins["weights"] = cx.floats("weights", n)
    kw = {{"adj": "edges"}.get(a, a): i.arr for a, i in ins.items()}
    if how == "ParticleSet":
        obj = cx.g.ParticleSet.from_numpy(**kw)
    elif how == "Graphicle":
        obj = cx.g.Graphicle.from_numpy(**kw)
    else:
        masks = how == "event with masks"
        if masks and "final" in kw:
            kw["masks"] = {"final": kw.pop("final")}
        obj = cx.g.Graphicle.from_event(SimpleNamespace(**kw))
    aligned(cx, "constructed", obj, ins, n, lambda k: k, kind)
    for i in ins.values():
        cx.unchanged("input", i)
    data = [a for a in ins if a != "weights"]
    cx.ensure("len is the particle count",
              len(obj) == n if data else len(obj) == 0)
    cx.ensure("truth is having any data", cx.iff(bool(obj), bool(data)))


@contract("C12", "accessors", fns=[GD + "Graphicle." + a for a in
                                   ("pdg", "pmu", "color", "helicity",
                                    "status", "final", "edges")])
def accessors(cx):
    n = cx.size("n", lo=1)
    obj, present, ins = event(cx, n)
    for a in ATTRS:
        cx.ensure(f"{a} is that of the particles",
                  attr(obj, a) is attr(obj.particles, a))
    if "adj" in ins:
        for j, f in enumerate(("src", "dst")):
            for k in cx.each(n):
                cx.ensure("edges", cx.same(obj.edges[f][k],
                                           ins["adj"].at(k, j)))


@contract("C12", "serialize",
          fns=[GD + "ParticleSet.serialize", GD + "Graphicle.serialize"])
def serialize_composite(cx):
    kind = cx.pick("kind", ["ParticleSet", "Graphicle"])
    n = cx.size("n", lo=1)
    obj, present, ins = event(cx, n, kind)
    s = obj.serialize()
    names = list(ATTRS) + (["adj"] if kind == "Graphicle" else [])
    cx.ensure("every attribute is listed", set(s) == set(names))
    for a in names:
        cls = ATTRS.get(a, "AdjacencyList")
        cx.ensure("each is a tuple", isinstance(s[a], tuple))
        if a in ins:
            rows_are(cx, a, cls, s[a], n, ins[a])
        else:
            cx.ensure(f"{a} is empty", len(s[a]) == 0)
    for i in ins.values():
        cx.unchanged("original", i)


LHE = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}


@contract("C12", "from_lhe_event", fns=[GD + "ParticleSet.from_lhe_event"])
def from_lhe(cx):
    n = cx.size("n", lo=1)
    ins = {a: draw(cx, c, a, n) for a, c in ATTRS.items()
           if a not in ("final", "status")}
    ins["status"] = cx.ints("status", n, "<i2", -9, 9,
                            pool=[-1, 1, 2, -2, 3, -9])
    for k in cx.each(n):
        s = ins["status"].at(k)
        ok = cx.Or(*[s == c for c in LHE])
        cx.assume_at(k, ok) if cx.symbolic else cx.assume(ok)
    form = cx.pick("form", ["arrays", "containers"])
    vals = {a: i.arr for a, i in ins.items()}
    if form == "containers":
        vals = {a: make(cx, ATTRS[a], v) for a, v in vals.items()}
    if form == "containers" and cx.symbolic:
        return
    ev = SimpleNamespace(**vals)
    p = cx.g.ParticleSet.from_lhe_event(ev)
    cx.ensure("a ParticleSet", type(p) is cx.g.ParticleSet)
    for a, cls in ATTRS.items():
        if a in ("final", "status"):
            continue
        holds(cx, a, cls, attr(p, a), n, lambda k, j: at(cls, ins[a], k, j))
    cx.ensure_len("status", p.status, n)
    cx.ensure_len("final", p.final, n)
    for k in cx.each(n):
        cx.ensure("nothing is final", cx.Not(p.final.data[k]))
        s = ins["status"].at(k)
        for old, new in LHE.items():
            cx.ensure(f"status {old} becomes {new}", cx.implies(
                s == old, lambda: p.status.data[k] == new))
    for i in ins.values():
        cx.unchanged("the event read", i)


# ------------------------------------------------------------------ C13
BIN = ["add", "subtract", "multiply", "maximum", "minimum"]
UN = ["negative", "absolute", "positive", "sign", "square"]
CMP = ["less", "less_equal", "greater", "greater_equal"]


NUM = [c for c in KINDS if c != "MaskArray"]
UFUNC = [GD + "_array_ufunc"] + [GD + c + ".__array_ufunc__" for c in KINDS]


def safe_draw(cx, cls, name, n):
    """Values far from the limits of the integer types."""
    cols, dt, _ = KINDS[cls]
    shape = (n, cols) if cols > 1 else (n,)
    if cls == "MomentumArray":
        return cx.floats(name, shape)
    return cx.ints(name, shape, dt, -9, 9)


def apply(cx, f, a, b):
    if cx.concrete:
        return getattr(cx.np, f)(a, b).item()
    return cx.scalar_ufunc(f, a, b)


def apply1(cx, f, a):
    if cx.concrete:
        return getattr(cx.np, f)(a).item()
    return cx.scalar_ufunc(f, a)


@contract("C13", "ufuncs", weight=2, timeout=300, fns=UFUNC)
def ufuncs(cx):
    cls = each_class(cx, NUM)
    n = cx.size("n")
    a = safe_draw(cx, cls, "a", n)
    obj = make(cx, cls, a.arr)
    np = cx.np
    if cx.pick("arity", [1, 2]) == 1:
        f = cx.pick("unary", UN)
        out = getattr(np, f)(obj)
        holds(cx, f, cls, out, n,
              lambda k, j: apply1(cx, f, at(cls, a, k, j)))
    else:
        f = cx.pick("binary", BIN)
        other = cx.pick("other", ["container", "array", "scalar", "self",
                                  "reversed array", "reversed scalar"])
        if other in ("container", "array", "reversed array"):
            b = safe_draw(cx, cls, "b", n)
            val = lambda k, j: at(cls, b, k, j)
            arg = make(cx, cls, b.arr) if other == "container" else b.arr
        elif other == "self":
            b, arg, val = a, obj, lambda k, j: at(cls, a, k, j)
        else:
            arg = cx.pick("scalar", [0, 1, 2, -3, 5])
            b, val = None, lambda k, j: arg
        uf = getattr(np, f)
        if other.startswith("reversed"):
            out = uf(arg, obj)
            want = lambda k, j: apply(cx, f, val(k, j), at(cls, a, k, j))
        else:
            out = uf(obj, arg)
            want = lambda k, j: apply(cx, f, at(cls, a, k, j), val(k, j))
        holds(cx, f, cls, out, n, want)
        if b is not None:
            cx.unchanged("second operand", b)
    cx.unchanged("operand", a)
    for u in columns(cls, out):
        cx.ensure("the result is new", cx.Not(cx.shares(u, a.arr)))


@contract("C13", "operators", weight=1.5, timeout=300, fns=UFUNC)
def operators(cx):
    cls = each_class(cx, NUM)
    n = cx.size("n")
    a, b = safe_draw(cx, cls, "a", n), safe_draw(cx, cls, "b", n)
    p, q = make(cx, cls, a.arr), make(cx, cls, b.arr)
    what = cx.pick("what", ["p + q", "p - q", "q * p", "-p", "abs(p)",
                            "3 * p", "p - 2", "4 - p", "p + array"])
    x = lambda k, j: at(cls, a, k, j)
    y = lambda k, j: at(cls, b, k, j)
    out, want = {
        "p + q": (lambda: p + q, lambda k, j: x(k, j) + y(k, j)),
        "p - q": (lambda: p - q, lambda k, j: x(k, j) - y(k, j)),
        "q * p": (lambda: q * p, lambda k, j: x(k, j) * y(k, j)),
        "-p": (lambda: -p, lambda k, j: -x(k, j)),
        "abs(p)": (lambda: abs(p), lambda k, j: abs(x(k, j))),
        "3 * p": (lambda: 3 * p, lambda k, j: 3 * x(k, j)),
        "p - 2": (lambda: p - 2, lambda k, j: x(k, j) - 2),
        "4 - p": (lambda: 4 - p, lambda k, j: 4 - x(k, j)),
        "p + array": (lambda: p + b.arr, lambda k, j: x(k, j) + y(k, j)),
    }[what]
    holds(cx, what, cls, out(), n, want)
    cx.unchanged("first operand", a)
    cx.unchanged("second operand", b)


@contract("C13", "order comparisons", fns=UFUNC)
def order(cx):
    cls = each_class(cx, [c for c in NUM if KINDS[c][0] == 1])
    n = cx.size("n")
    a, b = safe_draw(cx, cls, "a", n), safe_draw(cx, cls, "b", n)
    p = make(cx, cls, a.arr)
    f = cx.pick("f", CMP)
    kind = cx.pick("other", ["container", "array", "scalar"])
    s = cx.pick("scalar", [0, 2, -3])
    arg = {"container": make(cx, cls, b.arr), "array": b.arr,
           "scalar": s}[kind]
    val = (lambda k: s) if kind == "scalar" else b.at
    out = getattr(cx.np, f)(p, arg)
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_len("mask", out, n)
    op = {"less": lambda u, v: u < v, "less_equal": lambda u, v: u <= v,
          "greater": lambda u, v: u > v,
          "greater_equal": lambda u, v: u >= v}[f]
    for k in cx.each(n):
        cx.ensure(f, cx.iff(out.data[k], op(a.at(k), val(k))))
    cx.unchanged("operand", a)


@contract("C13", "reductions", weight=1.5, fns=UFUNC)
def reductions(cx):
    cls = each_class(cx, NUM)
    n = cx.size("n", lo=1)
    a = safe_draw(cx, cls, "a", n)
    p = make(cx, cls, a.arr)
    np = cx.np
    cols = KINDS[cls][0]
    how = cx.pick("how", ["sum", "reduce", "axis 1"])
    if how == "axis 1":
        if cols == 1:
            return
        out = np.sum(p, axis=1)
        cx.ensure("a plain array", isinstance(out, np.ndarray))
        cx.ensure_shape("axis=1", out, (n,))
        for k in cx.each(n):
            want = a.at(k, 0)
            for j in range(1, cols):
                want = want + a.at(k, j)
            cx.ensure("sum of the row",
                      cx.eq(out[k], want, scale=100.0))
    else:
        out = np.sum(p, axis=0) if how == "sum" else np.add.reduce(p)
        if cols == 1:
            total = cx.sum(n, a.at)
            cx.ensure("a scalar", np.shape(out) == ())
            cx.ensure("sum over particles", cx.eq(out, total))
        else:
            holds_eq(cx, "sum over particles", cls, out, lambda j: cx.sum(
                n, lambda k: a.at(k, j)))
    cx.unchanged("operand", a)


def holds_eq(cx, name, cls, obj, want):
    cx.ensure(name + ": one-element container",
              type(obj) is getattr(cx.g, cls))
    cx.ensure_len(name, obj, 1)
    for j, c in enumerate(columns(cls, obj)):
        cx.ensure(name, cx.eq(c[0], want(j), scale=100.0))


@contract("C13", "in place", fns=UFUNC)
def in_place(cx):
    cls = each_class(cx, NUM)
    n = cx.size("n")
    a, b = safe_draw(cx, cls, "a", n), safe_draw(cx, cls, "b", n)
    how = cx.pick("how", ["out", "iadd"])
    p, q = make(cx, cls, cx.copy_of(a)), make(cx, cls, b.arr)
    want = lambda k, j: at(cls, a, k, j) + at(cls, b, k, j)
    if how == "out":
        target = make(cx, cls, cx.copy_of(a))
        r = cx.np.add(p, q, out=target)
        holds(cx, "given as the output", cls, target, n, want)
        holds(cx, "first operand", cls, p, n,
              lambda k, j: at(cls, a, k, j))
    else:
        r = p
        r += q
        holds(cx, "augmented operand", cls, p, n, want)
    holds(cx, "result", cls, r, n, want)
    cx.unchanged("second operand", b)


@contract("C13", "other ufunc methods", mode="concrete", weight=0.7,
          fns=UFUNC, why="tuple results, accumulate and at: run-time only")
def other_methods(cx):
    np = cx.np
    cls = each_class(cx, NUM)
    n = cx.size("n", lo=1)
    a = safe_draw(cx, cls, "a", n)
    p = make(cx, cls, a.arr)
    how = cx.pick("how", ["divmod", "accumulate", "at", "max", "mean axis",
                          "float"])
    if how == "divmod":
        q, r = np.divmod(p, 2)
        wq, wr = np.divmod(a.snap, 2)
        for o, w in ((q, wq), (r, wr)):
            holds(cx, how, cls, o, n, lambda k, j: w[k, j].item()
                  if w.ndim == 2 else w[k].item())
    elif how == "accumulate":
        w = np.add.accumulate(a.snap)
        holds(cx, how, cls, np.add.accumulate(p), n,
              lambda k, j: w[k, j].item() if w.ndim == 2 else w[k].item())
    elif how == "at":
        c = make(cx, cls, a.fresh())
        w = a.fresh()
        np.add.at(w, [0], 1)
        cx.ensure("at returns nothing", np.add.at(c, [0], 1) is None)
        holds(cx, "at", cls, c, n,
              lambda k, j: w[k, j].item() if w.ndim == 2 else w[k].item())
    elif how == "max":
        out = np.maximum.reduce(p)
        w = a.snap.max(axis=0)
        if w.ndim:
            holds(cx, how, cls, out, 1, lambda k, j: w[j].item())
        else:
            cx.ensure(how, out == w)
    elif how == "mean axis" and cls == "MomentumArray":
        out = np.maximum.reduce(p, axis=1)
        cx.ensure("a plain array", type(out) is np.ndarray)
        cx.ensure(how, (out == a.snap.max(axis=1)).all())
    elif how == "float" and cls == "MomentumArray":
        out = np.true_divide(p, 4.0)
        holds(cx, how, cls, out, n, lambda k, j: a.at(k, j) / 4.0)
        out = np.hypot(p, p)
        cx.ensure("type", type(out) is cx.g.MomentumArray)
    cx.unchanged("operand", a)


@contract("C13", "equality", weight=2, timeout=300,
          fns=[GD + "_array_eq", GD + "_array_ne", GD + "_array_eq_prep"]
          + [GD + c + "." + m for c in NUM for m in ("__eq__", "__ne__")])
def equality(cx):
    cls = each_class(cx, NUM)
    cols, dt, fields = KINDS[cls]
    n = cx.size("n", lo=1)
    a = safe_draw(cx, cls, "a", n)
    p = make(cx, cls, a.arr)
    neg = cx.pick("op", ["==", "!="]) == "!="
    kind = cx.pick("other", ["container", "array", "row", "row list",
                             "scalar"])
    if kind in ("container", "array"):
        b = safe_draw(cx, cls, "b", n)
        if cx.concrete:           # make many rows agree
            keep = cx.rng.random(n) < 0.5
            b.arr[keep] = a.snap[keep]
            b.snap = b.arr.copy()
        val = lambda k, j: at(cls, b, k, j)
        arg = make(cx, cls, b.arr)
        if kind == "array":
            arg = arg.data
    elif cols == 1:
        if kind != "scalar":
            return
        arg = cx.pick("scalar value", [0, 1, 2, -3, 5])
        val = lambda k, j: arg
    else:
        if kind == "scalar":
            return
        i = cx.index("i", n)
        row = tuple(a.at(i, j) for j in range(cols))
        if cx.concrete and cx.rng.random() < 0.3:
            row = (row[0] + 1,) + row[1:]
        val = lambda k, j: row[j]
        arg = row if kind == "row" else list(row)
    out = (p != arg) if neg else (p == arg)
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_len("one entry per particle", out, n)
    for k in cx.each(n):
        want = cx.And(*[at(cls, a, k, j) == val(k, j)
                        for j in range(cols)])
        if neg:
            want = cx.Not(want)
        cx.ensure("true exactly where all fields agree" if not neg else
                  "true exactly where some field differs",
                  cx.iff(out.data[k], want))
    cx.unchanged("operand", a)
