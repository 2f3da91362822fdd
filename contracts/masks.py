"""C09, C10: mask algebra and mask groups; C21 overlaps and Jaccard."""
from vc.contract import contract

MA = "graphicle.data.MaskArray."
MG = "graphicle.data.MaskGroup."
GD = "graphicle.data."
S = "graphicle.select."
C = "graphicle.calculate."


# ------------------------------------------------------------------ C09
def operand(cx, kind, name, n):
    """(object for the code, value at k, drawn inputs)."""
    if kind == "mask":
        b = cx.bools(name, n)
        return cx.g.MaskArray(b.arr), b.at, [b]
    if kind == "numpy":
        b = cx.bools(name, n)
        return b.arr, b.at, [b]
    a, b = cx.bools(name + "0", n), cx.bools(name + "1", n)
    op = "or" if kind.endswith("or") else "and"
    g = cx.g.MaskGroup({"u": cx.g.MaskArray(a.arr),
                        "v": cx.g.MaskArray(b.arr)}, agg_op=op)
    if op == "or":
        return g, lambda k: cx.Or(a.at(k), b.at(k)), [a, b]
    return g, lambda k: cx.And(a.at(k), b.at(k)), [a, b]


KINDS = ["mask", "group and", "group or"]


@contract("C09", "binary operators", weight=2.5, timeout=300,
          fns=[MA + "__and__", MA + "__or__", MA + "__eq__", MA + "__ne__",
               MG + "__and__", MG + "__or__", MG + "__eq__", MG + "__ne__",
               GD + "_mask_eq", GD + "_mask_neq", MG + "data",
               MG + "bitwise_and", MG + "bitwise_or"])
def binary(cx):
    n = cx.size("n")
    op = cx.pick("op", ["&", "|", "==", "!="])
    lk = cx.pick("left", KINDS)
    rk = cx.pick("right", KINDS + ["numpy"])
    left, lv, lin = operand(cx, lk, "a", n)
    right, rv, rin = operand(cx, rk, "b", n)
    if op == "&":
        out, want = left & right, lambda k: cx.And(lv(k), rv(k))
    elif op == "|":
        out, want = left | right, lambda k: cx.Or(lv(k), rv(k))
    elif op == "==":
        out, want = left == right, lambda k: cx.iff(lv(k), rv(k))
    else:
        out, want = left != right, lambda k: cx.Not(cx.iff(lv(k), rv(k)))
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_len("result", out, n)
    for k in cx.each(n):
        cx.ensure(f"element-wise {op}", cx.iff(out.data[k], want(k)))
    for i in lin + rin:
        cx.unchanged("operand", i)
        cx.ensure("no shared memory", cx.Not(cx.shares(out.data, i.arr)))


@contract("C09", "not", fns=[MA + "__invert__", MG + "__invert__"])
def invert(cx):
    n = cx.size("n")
    a, av, ain = operand(cx, cx.pick("kind", KINDS), "a", n)
    out = ~a
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.ensure_len("result", out, n)
    for k in cx.each(n):
        cx.ensure("element-wise not", cx.iff(out.data[k], cx.Not(av(k))))
    for i in ain:
        cx.unchanged("operand", i)
        cx.ensure("no shared memory", cx.Not(cx.shares(out.data, i.arr)))


@contract("C09", "length mismatch",
          fns=[GD + "_mask_eq", GD + "_mask_neq"])
def mismatch(cx):
    n, k = cx.size("n"), cx.size("m")
    cx.assume(cx.Not(cx.same_index(n, k)) if cx.symbolic else n != k)
    op = cx.pick("op", ["==", "!="])
    a, _, _ = operand(cx, cx.pick("left", KINDS), "a", n)
    b, _, _ = operand(cx, cx.pick("right", KINDS + ["numpy"]), "b", k)
    err = cx.raises(ValueError, lambda: a == b if op == "==" else a != b)
    cx.ensure("different lengths are rejected", err is not None)


@contract("C09", "wrong operand",
          fns=[MA + "__and__", MA + "__or__", MA + "__eq__", MA + "__ne__",
               MG + "__and__", MG + "__or__", MG + "__eq__", MG + "__ne__"])
def wrong(cx):
    n = cx.size("n")
    a, _, ain = operand(cx, cx.pick("left", KINDS), "a", n)
    bad = cx.pick("bad", [[True, False], True, 1, "mask", None, 0.5,
                          (True,), {"a": 1}])
    op = cx.pick("op", ["&", "|", "==", "!="])
    f = {"&": lambda: a & bad, "|": lambda: a | bad,
         "==": lambda: a == bad, "!=": lambda: a != bad}[op]
    err = cx.raises((ValueError, TypeError), f)
    cx.ensure("neither a mask nor an array is rejected", err is not None)
    for i in ain:
        cx.unchanged("operand", i)


@contract("C09", "indexing",
          fns=[MA + "__getitem__", MA + "__setitem__"])
def indexing(cx):
    n = cx.size("n", lo=1)
    b = cx.bools("a", n)
    how = cx.pick("how", ["int", "slice", "mask", "array", "group",
                          "negative"])
    m = cx.g.MaskArray(b.arr)
    sel = cx.bools("sel", n)
    if how == "int":
        i = cx.index("i", n)
        out = m[i]
        cx.ensure_len("one element", out, 1)
        cx.ensure("that element", cx.iff(out.data[0], b.at(i)))
    elif how == "negative":
        out = m[-1]
        cx.ensure_len("one element", out, 1)
        cx.ensure("the last element", cx.iff(out.data[0], b.at(n - 1)))
    elif how == "slice":
        i = cx.index("i", n)
        out = m[i:]
        cx.ensure_len("the tail", out, n - i)
        for k in cx.each(n - i):
            cx.ensure("tail elements", cx.iff(out.data[k], b.at(i + k)))
    else:
        key = {"mask": cx.g.MaskArray(sel.arr), "array": sel.arr,
               "group": cx.g.MaskGroup({"u": cx.g.MaskArray(sel.arr)})}[how]
        out = m[key]
        cx.selects("selected elements", n, sel, out.data,
                   lambda i: b.at(i))
    cx.ensure("a MaskArray", type(out) is cx.g.MaskArray)
    cx.unchanged("operand", b)


@contract("C09", "assignment", fns=[MA + "__setitem__"])
def assignment(cx):
    n = cx.size("n", lo=1)
    b, sel = cx.bools("a", n), cx.bools("sel", n)
    how = cx.pick("how", ["int", "slice", "mask", "array", "group",
                          "mask array"])
    val = cx.bool("v")
    m = cx.g.MaskArray(cx.copy_of(b))
    new = cx.bools("new", n)
    if how == "int":
        i = cx.index("i", n)
        m[i] = val
        want = lambda k: cx.ite(cx.same_index(k, i), val, b.at(k))
    elif how == "slice":
        i = cx.index("i", n)
        m[i:] = val
        want = lambda k: cx.ite(cx.Not(cx.lt(k, i)), val, b.at(k))
    elif how == "mask array":
        m[cx.g.MaskArray(sel.arr)] = new.arr[sel.arr]
        want = lambda k: cx.ite(sel.at(k), new.at(k), b.at(k))
    else:
        key = {"mask": cx.g.MaskArray(sel.arr), "array": sel.arr,
               "group": cx.g.MaskGroup({"u": cx.g.MaskArray(sel.arr)})}[how]
        m[key] = val
        want = lambda k: cx.ite(sel.at(k), val, b.at(k))
    cx.ensure_len("same length", m, n)
    for k in cx.each(n):
        cx.ensure("exactly the addressed elements are assigned",
                  cx.iff(m.data[k], want(k)))
    cx.unchanged("key", sel)


# ------------------------------------------------------------------ C10
# shapes of nested groups; a leaf is the number of a mask
SHAPES = [
    {"a": 0},
    {"a": 0, "b": 1},
    {"b": 0, "a": 1, "latent": 2},
    {"a": {"c": 0, "d": 1}, "b": 2},
    {"a": {"c": 0, "latent": 1}, "latent": 2, "b": 3},
    {"a": {"c": {"e": 0, "f": 1}, "latent": 2}, "b": {"d": 3}},
    {"x": {"y": {"z": {"w": 0, "latent": 1}, "latent": 2}}, "v": 3},
    {"z": 0, "y": {"latent": {"q": 1, "r": 2}, "p": 3}},
]


def leaves_of(shape, prefix=()):
    for k, v in shape.items():
        if isinstance(v, dict):
            yield from leaves_of(v, prefix + (k,))
        else:
            yield prefix + (k,), v


def build(cx, shape, masks, op):
    d = {}
    for k, v in shape.items():
        d[k] = build(cx, v, masks, op) if isinstance(v, dict) else \
            cx.g.MaskArray(masks[v].arr)
    return cx.g.MaskGroup(d, agg_op=op)


def agg(cx, shape, at, op, k):
    vals = [agg(cx, v, at, op, k) if isinstance(v, dict) else at(v, k)
            for v in shape.values()]
    return cx.And(*vals) if op == "and" else cx.Or(*vals)


def structure(cx, group):
    """Keys, nesting and leaf objects of a group."""
    out = []
    for k, v in group.items():
        if isinstance(v, cx.g.MaskGroup):
            out.append((k, structure(cx, v)))
        else:
            out.append((k, v))
    return out


def match(cx, name, group, shape, n, at, op=None):
    """group has this shape, with value at(v, k) in leaf v."""
    keys = list(group.keys())
    cx.ensure(name + ": keys", keys == list(shape), f"{keys}")
    if op is not None:
        cx.ensure(name + ": agg_op", group.agg_op.value == op)
    for key, v in shape.items():
        got = group[key]
        if isinstance(v, dict):
            cx.ensure(name + ": nesting", type(got) is cx.g.MaskGroup)
            match(cx, name, got, v, n, at, op)
        else:
            cx.ensure(name + ": leaf", type(got) is cx.g.MaskArray)
            cx.ensure_len(name + ": leaf", got, n)
            for k in cx.each(n):
                cx.ensure(name + ": contents",
                          cx.iff(got.data[k], at(v, k)))


def setup(cx, lo=0, ops=("and", "or")):
    n = cx.size("n", lo=lo)
    shape = cx.pick("shape", SHAPES)
    op = cx.pick("agg_op", list(ops))
    masks = [cx.bools(f"m{i}", n) for i in range(4)]
    return n, shape, op, masks, build(cx, shape, masks, op)


@contract("C10", "aggregate", fns=[MG + "data", MG + "bitwise_and",
                                   MG + "bitwise_or", MG + "__array__"],
          bound="group shapes are the listed ones; mask contents and "
                "lengths are unbounded")
def aggregate(cx):
    n, shape, op, masks, g = setup(cx)
    out = g.data
    cx.ensure_shape("data", out, (n,))
    arr = cx.np.asarray(g) if cx.concrete else out
    for k in cx.each(n):
        want = agg(cx, shape, lambda v, k: masks[v].at(k), op, k)
        cx.ensure("recursive aggregate", cx.iff(out[k], want))
        cx.ensure("array view", cx.iff(arr[k], want))
        flat = [agg(cx, v, lambda v, k: masks[v].at(k), op, k)
                if isinstance(v, dict) else masks[v].at(k)
                for v in shape.values()]
        cx.ensure("bitwise_or", cx.iff(g.bitwise_or().data[k],
                                       cx.Or(*flat)))
        cx.ensure("bitwise_and", cx.iff(g.bitwise_and().data[k],
                                        cx.And(*flat)))
    for m in masks:
        cx.unchanged("mask", m)


@contract("C10", "no aggregation", fns=[MG + "data"])
def none_op(cx):
    n, shape, op, masks, g = setup(cx, ops=("none",))
    err = cx.raises(ValueError, lambda: g.data)
    cx.ensure("ValueError for agg_op 'none'", err is not None)


@contract("C10", "mixed aggregation", fns=[MG + "data", MG + "agg_op"])
def mixed(cx):
    n = cx.size("n")
    ms = [cx.bools(f"m{i}", n) for i in range(3)]
    outer = cx.pick("outer", ["and", "or"])
    inner = cx.pick("inner", ["and", "or"])
    form = cx.pick("form", ["str", "enum", "setter"])
    ma = [cx.g.MaskArray(m.arr) for m in ms]
    opo = cx.g.data.MaskAggOp(outer) if form == "enum" else outer
    sub = cx.g.MaskGroup({"x": ma[0], "y": ma[1]}, agg_op=inner)
    g = cx.g.MaskGroup({"s": sub, "t": ma[2]},
                       **({} if form == "setter" else {"agg_op": opo}))
    if form == "setter":
        cx.ensure("default is and", g.agg_op.value == "and")
        g.agg_op = outer
    cx.ensure("agg_op", g.agg_op.value == outer)
    out = g.data
    for k in cx.each(n):
        a, b, c = (m.at(k) for m in ms)
        i = cx.And(a, b) if inner == "and" else cx.Or(a, b)
        cx.ensure("each level uses its own operation", cx.iff(
            out[k], cx.And(i, c) if outer == "and" else cx.Or(i, c)))


@contract("C10", "slicing", fns=[MG + "__getitem__", MA + "__getitem__"],
          bound="listed group shapes")
def slicing(cx):
    n, shape, op, masks, g = setup(cx, lo=1)
    how = cx.pick("how", ["slice", "mask", "array"])
    sel = cx.bools("sel", n)
    if how == "slice":
        i = cx.index("i", n)
        out = g[i:]
        match(cx, "slice", out, shape, n - i,
              lambda v, k: masks[v].at(i + k), op)
    else:
        out = g[sel.arr] if how == "array" else g[cx.g.MaskArray(sel.arr)]
        for path, v in leaves_of(shape):
            leaf = out
            for key in path:
                leaf = leaf[key]
            cx.ensure("nesting", type(leaf) is cx.g.MaskArray)
            cx.selects("every mask at every level", n, sel, leaf.data,
                       lambda i: masks[v].at(i))
        cx.ensure("keys", keys_tree(cx, out) == keys_shape(shape))
        cx.ensure("agg_op", out.agg_op.value == op)
    cx.ensure("original keys", keys_tree(cx, g) == keys_shape(shape))
    for m in masks:
        cx.unchanged("mask", m)


def keys_tree(cx, g):
    return [(k, keys_tree(cx, v) if isinstance(v, cx.g.MaskGroup) else 0)
            for k, v in g.items()]


def keys_shape(s):
    return [(k, keys_shape(v) if isinstance(v, dict) else 0)
            for k, v in s.items()]


@contract("C10", "keys", fns=[MG + "__getitem__", MG + "__iter__",
                              MG + "__len__"], bound="listed group shapes")
def keys(cx):
    n, shape, op, masks, g = setup(cx)
    names = list(shape)
    pick = cx.pick("reverse", [False, True])
    want = [k for i, k in enumerate(names) if cx.pick(f"k{i}", [1, 0])]
    want = want[::-1] if pick else want
    out = g[want]
    match(cx, "keys", out, {k: shape[k] for k in want}, n,
          lambda v, k: masks[v].at(k), op)
    cx.ensure("len counts the keys", len(g) == len(shape))
    cx.ensure("iteration lists the keys", list(g) == names)
    cx.ensure("membership", all(k in g for k in names) and "?" not in g)


@contract("C10", "mutation", fns=[MG + "__setitem__", MG + "__delitem__"],
          bound="listed group shapes")
def mutation(cx):
    n, shape, op, masks, g = setup(cx)
    new = cx.bools("new", n)
    form = cx.pick("form", ["array", "mask"])
    key = cx.pick("key", ["a", "b", "zz"])
    val = new.arr if form == "array" else cx.g.MaskArray(new.arr)
    g[key] = val
    want = dict(shape)
    want[key] = 99
    match(cx, "set", g, want, n,
          lambda v, k: new.at(k) if v == 99 else masks[v].at(k), op)
    del g[key]
    del want[key]
    match(cx, "delete", g, want, n, lambda v, k: masks[v].at(k), op)
    cx.ensure("non-string keys are rejected",
              cx.raises(KeyError, lambda: g.__setitem__(3, val)) is not None)


@contract("C10", "copy", fns=[MG + "copy", MA + "copy"],
          bound="listed group shapes")
def copy(cx):
    n, shape, op, masks, g = setup(cx)
    c = g.copy()
    cx.ensure("a new group", type(c) is cx.g.MaskGroup and c is not g)
    match(cx, "copy", c, shape, n, lambda v, k: masks[v].at(k), op)
    for path, v in leaves_of(shape):
        leaf, parent = c, None
        for key in path:
            parent, leaf = leaf, leaf[key]
        for m in masks:
            cx.ensure("no shared data", cx.Not(cx.shares(leaf.data, m.arr)))
        leaf.data[...] = True
    c["new key"] = cx.g.MaskArray(masks[0].arr)
    match(cx, "original", g, shape, n, lambda v, k: masks[v].at(k), op)
    for m in masks:
        cx.unchanged("mask", m)


def drop(shape, key):
    return {k: drop(v, key) if isinstance(v, dict) else v
            for k, v in shape.items() if k != key}


@contract("C10", "recursive_drop", fns=[MG + "recursive_drop"],
          bound="listed group shapes")
def recursive_drop(cx):
    n, shape, op, masks, g = setup(cx)
    mode = cx.pick("mode", ["default", "copy", "inplace"])
    key = cx.pick("key", ["latent", "a", "d", "nope"])
    if mode == "default":
        key = "latent"
        out = g.recursive_drop()
    else:
        out = g.recursive_drop(key, inplace=(mode == "inplace"))
    want = drop(shape, key)
    at = lambda v, k: masks[v].at(k)
    match(cx, "dropped", out, want, n, at, op)
    if mode == "inplace":
        match(cx, "in place", g, want, n, at, op)
    else:
        match(cx, "original", g, shape, n, at, op)
        for path, v in leaves_of(want):
            leaf = out
            for q in path:
                leaf = leaf[q]
            cx.ensure("no shared data",
                      cx.Not(cx.shares(leaf.data, masks[v].arr)))
    for m in masks:
        cx.unchanged("mask", m)


def rise(shape, out):
    for k, v in shape.items():
        if k == "latent":
            continue
        out[k] = v
        if isinstance(v, dict):
            rise(v, out)
    return out


def leaves_named(key, v, out):
    if isinstance(v, dict):
        for k, u in v.items():
            if k != "latent":
                leaves_named(k, u, out)
    else:
        out[key] = v
    return out


@contract("C10", "flatten", weight=2,
          fns=[MG + "flatten", S + "leaf_masks", S + "_leaf_mask_iter"],
          bound="listed group shapes")
def flatten(cx):
    n, shape, op, masks, g = setup(cx)
    how = cx.pick("how", ["rise", "agg", "leaves", "default",
                          "leaf_masks"])
    if how == "default":
        out = g.flatten()
    elif how == "leaf_masks":
        out = cx.g.select.leaf_masks(g)
    else:
        out = g.flatten(how)
    if how in ("rise", "default"):
        want, op2 = rise(shape, {}), op
    elif how == "agg":
        want, op2 = dict(shape), "or"
    else:
        want, op2 = {}, op
        for k, v in shape.items():
            leaves_named(k, v, want)
    cx.ensure("a flat group", type(out) is cx.g.MaskGroup)
    cx.ensure("keys", list(out.keys()) == list(want), f"{list(out)}")
    cx.ensure("agg_op", out.agg_op.value == op2)
    for key, v in want.items():
        leaf = out[key]
        cx.ensure("only masks", type(leaf) is cx.g.MaskArray)
        cx.ensure_len("mask", leaf, n)
        for k in cx.each(n):
            at = lambda v, k: masks[v].at(k)
            cx.ensure("contents", cx.iff(
                leaf.data[k], agg(cx, v, at, op, k)
                if isinstance(v, dict) else at(v, k)))
    match(cx, "original", g, shape, n, lambda v, k: masks[v].at(k), op)
    for m in masks:
        cx.unchanged("mask", m)


@contract("C10", "equal_to", weight=1.5,
          fns=[MG + "equal_to", GD + "_maskgroup_equal"],
          bound="listed group shapes")
def equal_to(cx):
    n = cx.size("n")
    i = cx.pick("shape", list(range(len(SHAPES))))
    change = cx.pick("change", ["none", "contents", "order", "key",
                                "missing", "extra", "nesting", "shape"])
    shape = SHAPES[i]
    ms = [cx.bools(f"m{j}", n) for j in range(4)]
    g = build(cx, shape, ms, "or")
    check = cx.pick("check_order", [False, True])
    other, om = dict(shape), ms
    if change == "contents":
        om = [cx.bools(f"o{j}", n) for j in range(4)]
    elif change == "order":
        other = dict(reversed(list(shape.items())))
    elif change == "key":
        first = next(iter(shape))
        other = {("q" if k == first else k): v for k, v in shape.items()}
    elif change == "missing":
        other = dict(list(shape.items())[:-1])
    elif change == "extra":
        other["extra"] = 0
    elif change == "nesting":
        first = next(iter(shape))
        other[first] = {"in": 0} if not isinstance(shape[first], dict) \
            else 0
    elif change == "shape":
        other = SHAPES[(i + 1) % len(SHAPES)]
    h = build(cx, other, om, "or")
    got = g.equal_to(h, check_order=check) if check else g.equal_to(h)

    def eq(a, b):
        ka, kb = list(a), list(b)
        if (ka != kb) if check else (set(ka) != set(kb)):
            return False
        r = True
        for k in ka:
            u, v = a[k], b[k]
            if isinstance(u, dict) != isinstance(v, dict):
                return False
            if isinstance(u, dict):
                r = cx.And(r, eq(u, v))
            else:
                r = cx.And(r, cx.all(n, lambda k: cx.iff(ms[u].at(k),
                                                         om[v].at(k))))
        return r
    cx.ensure("equal_to", cx.iff(got, eq(shape, other)))


@contract("C10", "equal_to lengths", mode="concrete", weight=0.3,
          fns=[MG + "equal_to"], why="length mismatch of nested leaves")
def equal_lengths(cx):
    n, k = cx.size("n"), cx.size("m")
    a = cx.g.MaskGroup({"a": cx.np.zeros(n, "?")})
    b = cx.g.MaskGroup({"a": cx.np.zeros(k, "?")})
    cx.ensure("masks of different lengths differ",
              a.equal_to(b) == (n == k))


@contract("C10", "construction", fns=[MG + "__attrs_init__",
                                      GD + "_mask_dict_convert",
                                      MG + "from_numpy_structured"])
def construction(cx):
    n = cx.size("n")
    ms = [cx.bools(f"m{j}", n) for j in range(3)]
    form = cx.pick("form", ["arrays", "masks", "mapping", "structured",
                            "serialize"])
    shape = {"a": 0, "b": 1}
    if form == "arrays":
        g = cx.g.MaskGroup({"a": ms[0].arr, "b": ms[1].arr})
    elif form == "masks":
        g = cx.g.MaskGroup({"a": cx.g.MaskArray(ms[0].arr),
                            "b": cx.g.MaskArray(ms[1].arr)})
    elif form == "mapping":
        g = cx.g.MaskGroup({"a": {"x": ms[0].arr, "y": ms[2].arr},
                            "b": ms[1].arr})
        shape = {"a": {"x": 0, "y": 2}, "b": 1}
    elif form == "structured":
        g = cx.g.MaskGroup.from_numpy_structured(
            cx.structured({"a": ms[0], "b": ms[1]}, "?"))
    else:
        if cx.symbolic:
            return
        h = cx.g.MaskGroup({"a": {"x": ms[0].arr, "y": ms[2].arr},
                            "b": ms[1].arr})
        s = h.serialize()
        cx.ensure("serialize lists the masks", s == {
            "a": {"x": tuple(ms[0].snap.tolist()),
                  "y": tuple(ms[2].snap.tolist())},
            "b": tuple(ms[1].snap.tolist())})
        g = cx.g.MaskGroup(s)
        shape = {"a": {"x": 0, "y": 2}, "b": 1}
    match(cx, "constructed", g, shape, n, lambda v, k: ms[v].at(k))
    cx.ensure("truth is being non-empty",
              cx.iff(bool(g), cx.lt(0, n)))
    cx.ensure("an empty group is false", not cx.g.MaskGroup())


# ------------------------------------------------------------------ C21
@contract("C21", "jaccard_distance", weight=1.5,
          fns=[C + "jaccard_distance", C + "_jaccard_distance"])
def jaccard(cx):
    n = cx.size("n")
    u, v = cx.bools("u", n), cx.bools("v", n)
    weighted = cx.pick("weighted", [False, True])
    w = cx.floats("w", n, 0.0, 5.0, special=(0.0, 1.0)) if weighted else None
    form = cx.pick("form", ["masks", "arrays", "group"])
    if form == "masks":
        a, b = cx.g.MaskArray(u.arr), cx.g.MaskArray(v.arr)
    elif form == "arrays":
        a, b = u.arr, v.arr
    else:
        a = cx.g.MaskGroup({"u": cx.g.MaskArray(u.arr)})
        b = cx.g.MaskArray(v.arr)
    f = cx.g.calculate.jaccard_distance
    got = f(a, b, w.arr) if weighted else f(a, b)
    back = f(b, a, w.arr) if weighted else f(b, a)

    def wt(k):
        return w.at(k) if weighted else 1.0
    diff = cx.sum(n, lambda k: cx.ite(cx.iff(u.at(k), v.at(k)), 0.0, wt(k)))
    union = cx.sum(n, lambda k: cx.ite(cx.Or(u.at(k), v.at(k)), wt(k), 0.0))
    cx.ensure("difference over union", cx.implies(
        cx.Not(union == 0), lambda: cx.eq(got, diff / union)))
    cx.ensure("0 for a weightless union",
              cx.implies(union == 0, lambda: got == 0.0))
    cx.ensure("symmetric", cx.eq(got, back))
    for i in (u, v) + ((w,) if weighted else ()):
        cx.unchanged("operand", i)


@contract("C21", "any_overlap", fns=[S + "any_overlap"],
          bound="groups of at most 4 masks, one level of nesting")
def any_overlap(cx):
    n = cx.size("n")
    c = cx.pick("masks", [1, 2, 3, 4])
    ms = [cx.bools(f"m{i}", n) for i in range(c)]
    if cx.concrete and cx.bool("disjoint"):
        owner = cx.rng.integers(-1, c, size=n)
        for i, m in enumerate(ms):
            m.arr[...] = owner == i
            m.snap = m.arr.copy()
    nested = cx.pick("nested", [False, True])
    op = cx.pick("agg_op", ["or", "and"])
    d = {f"k{i}": cx.g.MaskArray(m.arr) for i, m in enumerate(ms)}
    vals = [m.at for m in ms]
    if nested and c >= 3:
        sub = cx.g.MaskGroup({"x": d.pop("k0"), "y": d.pop("k1")}, "or")
        d = {"s": sub, **d}
        a, b = vals[0], vals[1]
        vals = [lambda k: cx.Or(a(k), b(k))] + vals[2:]
    got = cx.g.select.any_overlap(cx.g.MaskGroup(d, op))

    def over(k):
        r = [cx.And(vals[i](k), vals[j](k)) for i in range(len(vals))
             for j in range(i)]
        return cx.Or(*r) if r else False
    cx.ensure("true exactly when two masks share a true element",
              cx.iff(got, cx.any(n, over)))
    for m in ms:
        cx.unchanged("mask", m) if cx.symbolic else None


@contract("C21", "cluster_coeff_distbn", weight=2,
          fns=[C + "cluster_coeff_distbn", C + "_clust_coeffs"],
          uses=[C + "_clust_coeffs"])
def coeffs(cx):
    n = cx.size("n", cap=14)
    m = cx.momenta("p", n, kind="transverse", tiny=False)
    radius = cx.real("radius", 0.1, 5.0, special=(1.0, 2.0))
    pseudo = cx.pick("pseudo", [True, False])
    threads = cx.pick("threads", [1] if cx.symbolic else [1, 2, 4])
    if cx.concrete and not pseudo:
        for k in range(n):
            cx.assume(m.at(k, 3) - abs(m.at(k, 2)) > 1e-6)
    p = cx.g.MomentumArray(m.arr)
    call = lambda: cx.g.calculate.cluster_coeff_distbn(
        p, radius, pseudo, threads)
    if cx.concrete:
        out = call()
        dist = p.delta_R(p.copy(), pseudo)      # decided by C05
    else:
        # for every distance matrix; which one it is C05 decides
        with cx.opaque_matrix(C + "_delta_R_symmetric", (n, n)) as one, \
                cx.opaque_matrix(C + "_delta_R", (n, n)) as two:
            out = call()
        cx.needs(len(one) + len(two) == 1, "one distance matrix")
        args, dist = (one + two)[0]
        rap = p.eta if pseudo else p.rapidity
        half = len(args) // 2
        for i in cx.each(n):
            for r, w in zip(args[:half], args[half:]):
                cx.ensure("the asked coordinates", cx.And(
                    cx.same(r[i], rap[i]), cx.eq(w[i], p._xy_pol[i])))
    cx.ensure_shape("coefficients", out, (n,))
    if cx.concrete:
        off = abs(dist - radius)
        cx.assume(n == 0 or off.min() > 1e-9)

    def adj(i, j):
        return cx.And(cx.Not(cx.same_index(i, j)), dist[i, j] < radius)
    for i in cx.each(n, "i"):
        deg = cx.count(n, lambda j: adj(i, j))
        if cx.concrete:
            links = sum(1 for j in range(n) for k in range(n)
                        if adj(i, j) and adj(i, k) and adj(j, k))
            want = 0.0 if deg < 2 else links / (deg * (deg - 1))
            cx.ensure("fraction of neighbouring pairs",
                      cx.eq(float(out[i]), want, tol=1e-6),
                      f"{out[i]} != {want}")
        else:
            links = cx.sum(n, lambda j: cx.ite(
                adj(i, j), cx.real_of(cx.count(
                    n, lambda k: cx.And(adj(i, k), adj(j, k)))), 0.0))
            d = cx.real_of(deg)
            cx.ensure("0 with fewer than two neighbours",
                      cx.implies(deg < 2, lambda: out[i] == 0.0))
            cx.ensure("fraction of neighbouring pairs", cx.implies(
                cx.Not(deg < 2),
                lambda: cx.eq(out[i], links / (d * (d - 1.0)))))
    cx.unchanged("operand", m)
