"""Planted bugs: each breaks one property and passes the stable tests."""
SEEDS = [
dict(id="mass-sign", prop="C01", edits=[("calculate.py",
"    sqrt_diff = math.copysign(math.sqrt(abs(diff)), diff)\n",
"    sqrt_diff = math.copysign(math.sqrt(abs(diff)), x1)\n")],
needs="a momentum with negative energy or with |E| < |p| (off-shell "
      "intermediate particle)",
breaks="the sign of mass and mass_t follows the sign of E instead of the sign "
       "of E^2-|p|^2",
demo='''
p = gcl.MomentumArray([[3.0, 0.0, 4.0, 1.0], [0.0, 0.0, 1.0, 2.0]])
assert p.mass[0] < 0 and abs(p.mass[0] ** 2 - 24.0) < 1e-9, p.mass
assert p.mass_t[0] < 0, p.mass_t
'''),
dict(id="deltar-sym-nan", prop="C05", edits=[("calculate.py",
"""        for j in range(i + 1, size):
            drap = rapidity[i] - rapidity[j]
            if np.isnan(drap):
                drap = 0.0
""",
"""        for j in range(i + 1, size):
            drap = rapidity[i] - rapidity[j]
            if drap == np.inf:
                drap = 0.0
""")],
needs="two particles along the beam axis on the same side (or one on each), "
      "and delta_R of an array with itself",
breaks="the symmetric delta-R kernel gives NaN for two equal infinite "
       "rapidities and 0 for opposite ones",
demo='''
p = gcl.MomentumArray([[0, 0, 5.0, 5.0], [0, 0, 3.0, 3.0], [1.0, 0, 0, 2.0]])
with np.errstate(all="ignore"):
    d = p.delta_R(p)
assert d[0, 1] == 0.0 and d[1, 0] == 0.0, d
assert np.isinf(d[0, 2]), d
'''),
dict(id="group-or-agg", prop="C09", edits=[("data.py",
"        return MaskArray(np.bitwise_or(self.data, other_data))\n\n"
"    def __invert__(self) -> MaskArray:\n"
"        return MaskArray(~self.data)\n",
"        return MaskArray(np.bitwise_or(self.bitwise_or().data, other_data))"
"\n\n"
"    def __invert__(self) -> MaskArray:\n"
"        return MaskArray(~self.data)\n")],
needs="| on a MaskGroup whose aggregation is 'and' and whose members differ",
breaks="group | mask uses the or-aggregate whatever agg_op says",
demo='''
g = gcl.MaskGroup({"a": [True, True, False], "b": [True, False, False]}, "and")
r = g | np.array([False, False, False])
assert r.data.tolist() == [True, False, False], r
'''),
dict(id="recursive-drop-key", prop="C10", edits=[("data.py",
"                value.recursive_drop(key, inplace=True)\n",
"                value.recursive_drop(inplace=True)\n")],
needs="a nested group and a key other than 'latent'",
breaks="recursive_drop drops the asked key at the top level only, and drops "
       "'latent' below it",
demo='''
g = gcl.MaskGroup({"a": {"x": [True], "latent": [False]}, "x": [True]}, "or")
d = g.recursive_drop("x")
assert "x" not in d and "x" not in d["a"] and "latent" in d["a"], d
'''),
dict(id="pmu-field-order", prop="C11", edits=[("data.py",
"    if names == _MOMENTUM_ORDER:\n",
"    if set(names) == set(_MOMENTUM_ORDER):\n")],
needs="structured momentum input with fields x, y, z, e in another order",
breaks="the fields are taken by position instead of by name",
demo='''
a = np.array([(4.0, 1.0, 2.0, 3.0)],
             dtype=[(k, "<f8") for k in ("e", "x", "y", "z")])
p = gcl.MomentumArray(a)
assert p.energy[0] == 4.0 and p.x[0] == 1.0, p
'''),
dict(id="status-zero-max", prop="C14", edits=[("data.py",
"        if max_status is None:\n",
"        if not max_status:\n")],
needs="in_range called with max_status=0",
breaks="an upper bound of zero is ignored",
demo='''
s = gcl.StatusArray([-5, 0, 3])
m = s.in_range(-10, 0, sign_sensitive=True)
assert m.data.tolist() == [True, True, False], m
'''),
dict(id="prune-resultant", prop="C18", edits=[("select.py",
"""    if mask is not None:
        pmu = pmu[mask]
        event_mask = np.zeros_like(mask, "<?")
    if centre is None:
        eta_mid, phi_mid = gcl.calculate.resultant_coords(pmu, pseudo=True)
    else:
        eta_mid, phi_mid = centre
""",
"""    if centre is None:
        eta_mid, phi_mid = gcl.calculate.resultant_coords(pmu, pseudo=True)
    else:
        eta_mid, phi_mid = centre
    if mask is not None:
        pmu = pmu[mask]
        event_mask = np.zeros_like(mask, "<?")
""")],
needs="a mask and no explicit centre",
breaks="the default centre is the resultant of every particle instead of "
       "the masked ones",
demo='''
p = gcl.MomentumArray([[1.0, 0, 0, 1.0], [-40.0, 1.0, 3.0, 41.0],
                       [1.0, 0.1, 0.1, 1.2]])
m = gcl.MaskArray([True, False, True])
r = gcl.select.centroid_prune(p, 0.5, m)
assert r.data.tolist() == [True, False, True], r
'''),
dict(id="cut-self-loop-weight", prop="C20", edits=[("matrix.py",
"""    adj = np.where(mask, weights, 0.0)
    if self_loop is False:
        np.fill_diagonal(adj, 0.0)
    else:
        np.fill_diagonal(adj, 1.0)
""",
"""    np.fill_diagonal(mask, self_loop)
    adj = np.where(mask, weights, 0.0)
""")],
needs="weighted=True together with self_loop=True",
breaks="the diagonal holds the affinities instead of ones",
demo='''
m = np.array([[0.0, 2.0], [2.0, 0.5]])
a = gcl.matrix.cut_adj(m, 3.0, weighted=True, self_loop=True)
assert a.tolist() == [[1.0, 2.0], [2.0, 1.0]], a
'''),
dict(id="spherical-energy", prop="C22", edits=[("data.py",
"            p_mag = p_mag.copy()\n", "")],
needs="0 < massless < 1",
breaks="the energies of the massive particles are overwritten with their "
       "momentum, so every particle comes out massless",
demo='''
p = gcl.MomentumArray.from_spherical_uniform(400, 10.0, massless=0.5, seed=2)
mag = np.sqrt(p.x ** 2 + p.y ** 2 + p.z ** 2)
massive = np.sum(p.energy - mag > 1e-6)
assert 100 < massive < 300, massive
'''),
dict(id="split-hardest-energy", prop="C06", edits=[("transform.py",
"    hard_idx = momenta.pt.argmax()\n",
"    hard_idx = momenta.energy.argmax()\n")],
needs="momenta whose highest pt and highest energy are different elements",
breaks="split_hardest splits the most energetic element instead of the one "
       "with the largest pt",
demo='''
p = gcl.MomentumArray([[5.0, 0, 0, 5.0], [1.0, 0, 30.0, 31.0],
                       [0, 2.0, 1.0, 3.0]])
q = gcl.transform.split_hardest(p, 0.25, 0.1)
pts = np.sort(q.energy)
assert 31.0 in q.energy.tolist() and 5.0 not in q.energy.tolist(), q
'''),
dict(id="eta-no-corrections", prop="C04", edits=[("data.py",
"        if converged is not True:\n",
"        if converged is not True and max_corrections > 0:\n")],
needs="max_corrections=0 and a shift that is not reached",
breaks="no warning although the shift was not applied",
demo='''
p = gcl.MomentumArray([[1.0, 0.5, 0.2, 2.0]])
with warnings.catch_warnings(record=True) as rec:
    warnings.simplefilter("always")
    p.shift_eta(1.0, max_corrections=0)
assert rec
'''),
dict(id="cluster-two-neighbours", prop="C21", edits=[("calculate.py",
"        if num_neibs < 2:\n", "        if num_neibs <= 2:\n")],
needs="a node with exactly two neighbours which are linked",
breaks="its clustering coefficient comes out 0 instead of 1",
demo='''
p = gcl.MomentumArray([[1.0, 0, 0, 1.0], [1.0, 0.01, 0, 1.0],
                       [1.0, 0, 0.01, 1.0]])
c = gcl.calculate.cluster_coeff_distbn(p, 0.5)
assert np.allclose(c, 1.0), c
'''),
dict(id="rapidity-clipped", prop="C02", edits=[("data.py",
"        cosh = np.cosh(-shift)\n        sinh = np.sinh(-shift)\n",
"        bounded = np.clip(-shift, -8.0, 8.0)\n"
"        cosh, sinh = np.cosh(bounded), np.sinh(bounded)\n")],
needs="a rapidity shift beyond 8 units",
breaks="the boost stops at 8 units of rapidity",
demo='''
p = gcl.MomentumArray([[1.0, 2.0, 3.0, 5.0], [0.5, -1.0, -2.0, 4.0]])
for s in (0.7, -9.0):
    assert np.allclose(p.shift_rapidity(s).shift_rapidity(-s).z, p.z), s
    q = p.shift_rapidity(s)
    assert np.allclose(np.arctanh(q.z / q.energy),
                       np.arctanh(p.z / p.energy) + s, rtol=1e-6), s
'''),
dict(id="thrust-half-domain", prop="C07", edits=[("calculate.py",
"        bounds=(domain, domain),\n        method=\"L-BFGS-B\",\n",
"        bounds=(domain, (0.0, half_pi)),\n        method=\"L-BFGS-B\",\n")],
needs="an event whose thrust axis has x and z of opposite signs",
breaks="half of the axes are never searched, so the thrust is too small",
demo='''
u = np.array([-1.0, 0.3, 1.0])
rng = np.random.default_rng(3)
v = np.vstack([u, -u]) + 0.05 * rng.normal(size=(2, 3))
p = gcl.MomentumArray(np.hstack([v, np.linalg.norm(v, axis=1)[:, None]]))
best = max(gcl.calculate.thrust(p, rng_seed=s) for s in range(30))
assert best > 0.98, best
'''),
dict(id="one-particle-scalar", prop="C13", edits=[("data.py",
"        if not result.shape or kwargs.get(\"axis\", None) == 1:",
"        if result.size < 2 or kwargs.get(\"axis\", None) == 1:")],
needs="arithmetic on a one-element (or empty) PdgArray, StatusArray, ...",
breaks="the result is a bare numpy array instead of the same container",
demo='''
for n in (0, 1, 2):
    s = gcl.StatusArray(np.arange(n) + 21)
    assert isinstance(s + 1, gcl.StatusArray), n
'''),
dict(id="nodes-mirrored", prop="C15", edits=[("data.py",
"        sort_idxs = np.argsort(np.abs(unsort_nodes))\n",
"        _, sort_idxs = np.unique(np.abs(unsort_nodes), return_index=True)\n")],
needs="an edge list in which both v and -v are vertex ids",
breaks="one of the two vertices is missing from nodes",
demo='''
a = gcl.AdjacencyList([(1, -2), (-2, 3), (3, 2)])
assert sorted(a.nodes.tolist()) == [-2, 1, 2, 3], a.nodes
assert (np.diff(np.abs(a.nodes)) >= 0).all()
'''),
dict(id="targets-signed", prop="C16", edits=[("select.py",
"set(target) if sign_sensitive else set(map(abs, target))",
"set(target)")],
needs="a negative code in target without sign_sensitive",
breaks="partons which are there are reported as missing",
demo='''
g = gcl.Graphicle.from_numpy(
    pdg=np.array([21, 21, 6, -6, 211]), status=np.array([-21, -21, 23, 23, 1]),
    edges=np.array([(1, 3), (2, 3), (3, 4), (3, 5), (4, 6)],
                   dtype=[("src", "i4"), ("dst", "i4")]),
    final=np.array([0, 0, 0, 1, 1], dtype=bool))
d = gcl.select.hard_descendants(g, {-6})
assert len(d) == 2, d
'''),
dict(id="nearest-parents-only", prop="C17", edits=[("select.py",
"    row_pairs = it.product(reversed(asc_parents), asc_parents)\n",
"    row_pairs = zip(reversed(asc_parents), reversed(asc_parents[:-1]))\n")],
needs="two sibling hard partons which both have hard children (t and tbar)",
breaks="a grandchild stays listed under its grandparent",
demo='''
e = [(1, 3), (2, 3), (3, 4), (4, 5), (4, 6), (5, 7), (5, 8), (6, 9), (6, 10),
     (7, 11), (8, 12), (9, 13), (10, 14)]
g = gcl.Graphicle.from_numpy(
    pdg=np.array([21, 21, 25, 6, -6, 24, 5, -24, -5, 11, 211, -11, -211]),
    status=np.array([-21, -21, -22, -22, -22, 23, 23, 23, 23, 1, 1, 1, 1]),
    edges=np.array(e, dtype=[("src", "i4"), ("dst", "i4")]),
    final=np.array([0] * 9 + [1] * 4, dtype=bool))
h = gcl.select.hierarchy(g)
assert list(h) == ["H0"], list(h)
assert set(h["H0"]) == {"t", "t~", "latent"}, list(h["H0"])
'''),
dict(id="tag-one-too-few", prop="C19", edits=[("select.py",
"    if len(cluster_masks) < len(hard_pmu):",
"    if len(cluster_masks) + 1 < len(hard_pmu):")],
needs="exactly one cluster fewer than hard partons",
breaks="the tagging goes ahead and drops a parton instead of raising",
demo='''
p = gcl.ParticleSet.from_numpy(
    pdg=np.array([5, -5, 211, 111]), status=np.array([23, 23, 1, 1]),
    pmu=np.array([(1, 0, .2, 3), (-1, .1, 0, 3), (1, 0, 0, 3), (-1, 0, .1, 3)],
                 dtype=[(k, "f8") for k in "xyze"]),
    final=np.array([0, 0, 1, 1], dtype=bool))
try:
    t = gcl.select.monte_carlo_tag(p, [gcl.MaskArray([True, False])])
except ValueError:
    pass
else:
    raise AssertionError(t)
'''),
dict(id="topk-before-eta", prop="C23", edits=[("select.py",
"    jet_idxs_ = sequence.constituent_index(pt_cut)[pt_descend_idxs]\n",
"    pt_descend_idxs = pt_descend_idxs[:top_k]\n"
"    jet_idxs_ = sequence.constituent_index(pt_cut)[pt_descend_idxs]\n")],
needs="top_k together with an eta_cut that drops one of the top_k hardest",
breaks="fewer jets than asked for although more pass the cuts",
demo='''
v = np.array([[50.0, 0, 500.0], [0, 30.0, 3.0], [-20.0, 1.0, 2.0]])
p = gcl.MomentumArray(np.hstack([v, np.linalg.norm(v, axis=1)[:, None]]))
j = gcl.select.fastjet_clusters(p, 0.4, -1, eta_cut=2.0, top_k=2)
assert [m.data.tolist() for m in j] == [[False, True, False],
                                        [False, False, True]], j
'''),
dict(id="vertices-left-join", prop="C24", edits=[("select.py",
"            pcls_in, how=\"outer\",", "            pcls_in, how=\"left\",")],
needs="an initial vertex (no incoming particle) and no pdgs_in",
breaks="vertices without incoming particles are not found",
demo='''
g = gcl.Graphicle.from_numpy(
    pdg=np.array([21, 6]),
    edges=np.array([(1, 2), (2, 3)], dtype=[("src", "i4"), ("dst", "i4")]))
assert gcl.select.find_vertex(g, pdgs_out={21}).tolist() == [1]
'''),
dict(id="threads-on-error", prop="C25", edits=[("calculate.py",
"    try:\n        yield None\n    finally:\n"
"        nb.set_num_threads(prev_threads)",
"    yield None\n    nb.set_num_threads(prev_threads)")],
needs="a call with a thread count which raises inside the kernel",
breaks="the process-wide thread setting stays changed",
demo='''
import numba as nb
before = nb.get_num_threads()
try:
    with gcl.calculate._thread_scope(1 if before > 1 else before):
        raise KeyError
except KeyError:
    pass
assert nb.get_num_threads() == before
'''),
dict(id="event-of-one", prop="C12", edits=[("data.py",
"    return next(filter(fn.partial(op.lt, 0), map(len, _dsets(instance)[1])), 0)",
"    return next(filter(fn.partial(op.lt, 1), map(len, _dsets(instance)[1])), 0)")],
needs="an event with a single particle",
breaks="its length is 0",
demo='''
for n in range(4):
    p = gcl.ParticleSet.from_numpy(pdg=np.full(n, 6))
    assert len(p) == n, (n, len(p))
'''),
dict(id="jaccard-one-sided", prop="C21", edits=[("calculate.py",
"        unequal_nonzero = nonzero & (u_elem != v_elem)",
"        unequal_nonzero = nonzero & (u_elem > v_elem)")],
needs="two masks where the second has elements the first has not",
breaks="only elements of the first mask count as different",
demo='''
d = gcl.calculate.jaccard_distance
a, b = np.array([1, 0, 1], bool), np.array([1, 1, 0], bool)
assert np.isclose(d(a, b), 2 / 3) and np.isclose(d(b, a), 2 / 3)
'''),
dict(id="phi-array-root", prop="C03", edits=[("data.py",
"            rot_op = np.exp(1.0j * shift)\n",
"            cos = np.cos(shift)\n"
"            rot_op = cos + 1.0j * np.sqrt(1.0 - cos * cos)\n")],
needs="an array of azimuth shifts, some of them negative",
breaks="negative shifts rotate the wrong way",
demo='''
p = gcl.MomentumArray([[1.0, 2.0, 3.0, 5.0], [0.5, -1.0, -2.0, 4.0]])
q = p.shift_phi(np.array([0.4, -0.4]))
for k, s in enumerate((0.4, -0.4)):
    r = p[k].shift_phi(s)
    assert np.allclose([q.x[k], q.y[k]], [r.x[0], r.y[0]]), k
'''),
dict(id="mass-spacelike-abs", prop="C08", edits=[("calculate.py",
"            mass = np.sqrt((data.sum(axis=0) ** 2) @ minkowski)\n",
"            mass = np.sqrt(np.abs((data.sum(axis=0) ** 2) @ minkowski))\n")],
needs="momenta whose (weighted) sum is spacelike",
breaks="combined_mass gives |p| instead of 0",
demo='''
assert gcl.calculate.combined_mass(
    gcl.MomentumArray([[3.0, 4.0, 0.0, 1.0]])) == 0.0
assert np.isclose(gcl.calculate.combined_mass(
    gcl.MomentumArray([[0.0, 3.0, 0.0, 5.0]])), 4.0)
'''),
]
