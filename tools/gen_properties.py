#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
D, S, C, T, M = ("graphicle/data.py", "graphicle/select.py", "graphicle/calculate.py",
                 "graphicle/transform.py", "graphicle/matrix.py")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Kinematic observables equal their definitions for every momentum",
 "For every MomentumArray, each element of x, y, z, energy, pt, eta, phi, theta, rapidity, mass and mass_t is the textbook function of that element's own four components and of nothing else: pt=sqrt(x^2+y^2), eta=atanh(z/|p|), theta=angle from +z, phi=atan2(y,x), mass and mass_t the signed square roots of E^2-|p|^2 and E^2-z^2 (negative when the difference is negative). Rapidity is atanh(z/E) for every E>|z|, odd in z, and an infinity with the sign of z when E and |z| agree within 1e-10. Azimuth is NaN, with a NumericalStabilityWarning, exactly for the elements whose pt is at most 1e-10.",
 ["inputs"], "all particle counts and all finite component values, including longitudinal, at-rest, massless, space-like and pz<0 momenta",
 "The suite evaluates one momentum (pt=3, pz=4, E=5); it never sees pz<0, a non-zero mass beside a space-like one, rapidity or mass_t values, or more than one element.",
 [D, C], [("coordinate properties of MomentumArray", D), ("_root_diff_two_squares / _rapidity kernels", C)],
 observe=["MomentumArray.x/y/z/energy/pt/eta/phi/theta/rapidity/mass/mass_t"])
prop("C02", "Rapidity shift is an exact longitudinal Lorentz boost",
 "shift_rapidity(s) returns new momenta of the same length and order in which x and y are unchanged and E+z is multiplied by exp(s) and E-z by exp(-s), so E^2-z^2 (hence every mass and transverse mass) is conserved and every rapidity grows by exactly s. A scalar s applies to all elements and an array s applies element by element; shifting by -s afterwards restores the original, whose own components are never altered.",
 ["inputs"], "all momenta, all particle counts, all scalar and per-element shifts of either sign",
 "One massless-like element and one random scalar shift are round-tripped; a wrong sign or a wrong mass-shell factor that cancels in a round trip, and array shifts, are never seen.",
 [D], [("MomentumArray.shift_rapidity", D)], observe=["MomentumArray.shift_rapidity"])
prop("C03", "Azimuthal shift is an exact rotation about the beam axis",
 "shift_phi(a) returns new momenta of the same length and order whose (x, y) are the original (x, y) rotated anticlockwise by a, with z and E unchanged, so pt, eta, mass and rapidity are conserved; a may be a scalar of any real type or one angle per element. Shifting by -a afterwards restores the original, and the original's own components are never altered.",
 ["inputs"], "all momenta, all particle counts, all scalar and per-element angles",
 "The suite only round-trips one element by one scalar angle, which any invertible map of that element passes.",
 [D], [("MomentumArray.shift_phi", D)], observe=["MomentumArray.shift_phi"])
prop("C04", "Pseudorapidity shift converges or warns, and never breaks the mass shell",
 "shift_eta(s) only ever applies longitudinal boosts common to all elements: x, y and E^2-z^2 of every element are conserved whatever max_corrections and abs_tol are. Without a warning, the pseudorapidity of the summed momentum ends within abs_tol of its original value plus s, and otherwise a NumericalStabilityWarning is issued. With experimental=True each element keeps x, y and pt, its z becomes pt*sinh(eta+s), and its energy becomes NaN.",
 ["inputs", "configurations"], "all momenta, shifts, tolerances, and any number of corrective iterations",
 "A single element is shifted and shifted back with default settings; multi-particle targets, the experimental mode, non-convergence and the warning are never exercised.",
 [D, C], [("MomentumArray.shift_eta corrective loop", D), ("resultant_coords", C)], observe=["MomentumArray.shift_eta"])
prop("C05", "Pairwise delta-R matrix is the eta-phi distance for every pair",
 "a.delta_R(b)[i, j] is sqrt(drap^2 + dphi^2), with drap the (pseudo)rapidity difference of a[i] and b[j] (zero when both are the same infinity) and dphi the azimuth difference wrapped into [-pi, pi], for every i and j, with shape (len(a), len(b)). Comparing an array with itself gives the same values as comparing it with an equal copy, is symmetric and has a zero diagonal; pseudo=False switches to true rapidity. parton_hadron_distance scales row i by pt_i**pt_exp, and delta_R_aff is delta_R of an array with itself.",
 ["inputs", "configurations"], "all pairs of momentum arrays of any lengths, both rapidity definitions, self and non-self comparison",
 "No test calls delta_R or anything built on it.",
 [D, C, M], [("MomentumArray.delta_R", D), ("_delta_R and _delta_R_symmetric kernels", C), ("parton_hadron_distance, delta_R_aff", M)],
 observe=["MomentumArray.delta_R", "matrix.delta_R_aff", "matrix.parton_hadron_distance"])
prop("C06", "Splitting a momentum conserves it and rotates the first child as asked",
 "split_momentum returns two momenta whose component-wise sum is the parent, the first having energy z*E and three-momentum z*R(p) with R the right-handed rotation by the given angle about the given (theta, phi) axis; rotation_matrix is orthogonal with determinant 1 and leaves its axis fixed. split_hardest replaces exactly the highest-pt element, keeping all others in order ahead of the two children, rejects z outside (0, 0.5], and by default rotates about soft_hard_axis, whose direction is orthogonal to both the softest and the hardest three-momentum.",
 ["inputs"], "all momenta, energy fractions, angles and axes; all positions of the hardest element and all particle counts",
 "Only split_momentum is sampled, on random single momenta and with the sign of the rotation discarded; split_hardest and soft_hard_axis are never run.",
 [T, C], [("rotation_matrix, split_momentum, split_hardest, soft_hard_axis", T), ("_angles_to_axis", C)],
 observe=["transform.rotation_matrix", "transform.split_momentum", "transform.split_hardest", "transform.soft_hard_axis"])
prop("C07", "Event shapes are evaluated and optimised on the right functions",
 "c_parameter is 1.5*sum_ij(|pi||pj|-(pi.pj)^2/(|pi||pj|))/(sum_i|pi|)^2. thrust and spherocity return the value, at the unit axis they report, of sum_i|pi.n|/sum_i|pi| and of ((4/pi)*sum_i|pi x n|/sum_i|pi|)^2 respectively, and each optimisation is driven in the right direction by the exact gradient of its objective over axis angles covering a full hemisphere. Momenta at rest contribute nothing, and a fixed seed reproduces the result.",
 ["inputs"], "all particle counts and all three-momenta, all axis angles, all seeds",
 "Two idealised events (a sphere and a pencil) with loose tolerances; energies, asymmetric events, the axis, the gradients and particles at rest are not covered.",
 [C], [("_thrust_with_grad, _spherocity_with_grad, _c_parameter, _three_norm", C), ("thrust, spherocity, c_parameter", C)],
 observe=["calculate.thrust", "calculate.spherocity", "calculate.c_parameter"])
prop("C08", "Cluster momenta, masses and centroids are sums over exactly the members",
 "combined_mass is sqrt(E^2-|p|^2) of the (optionally weighted) component-wise sum, or 0.0 when that square is negative. aggregate_momenta returns one momentum per mask, in order, each the component-wise sum of exactly the selected particles; resultant_coords is the (pseudo)rapidity and azimuth of the sum of all; weighted_centroid is the pt-weighted mean (pseudo)rapidity and azimuth, with the azimuth wrapped to [-pi, pi].",
 ["inputs"], "all momenta, weights, masks and particle counts; both rapidity definitions",
 "None of these functions is exercised by the tests.",
 [C, D], [("combined_mass, aggregate_momenta, resultant_coords, weighted_centroid", C)],
 observe=["calculate.combined_mass", "calculate.aggregate_momenta", "calculate.resultant_coords", "calculate.weighted_centroid"])
prop("C09", "Mask operators are element-wise Boolean algebra",
 "For MaskArray and MaskGroup operands (a group standing for its aggregate) and Boolean numpy arrays, &, |, ~, == and != give a new MaskArray whose every element is the and, or, not, equivalence and exclusive-or of the corresponding elements, never altering an operand. == and != reject operands of different lengths, and all of them reject operands that are neither masks nor arrays; indexing and item assignment act on exactly the addressed elements.",
 ["inputs"], "all mask lengths and contents, all operand kinds, all index kinds",
 "The suite only builds masks, serialises them and compares them with equal_to; no mask operator's truth table is checked.",
 [D], [("MaskArray operators, _mask_eq, _mask_neq", D), ("MaskGroup operators", D)], observe=["MaskArray", "MaskGroup"])
prop("C10", "Mask groups aggregate, nest, flatten and copy faithfully",
 "A MaskGroup's data is the element-wise and (agg_op 'and') or or (agg_op 'or') over all of its members, recursively through nested groups, and raises ValueError for 'none'. Slicing a group slices every mask at every level and selecting keys keeps exactly those; copy shares no data with the original; recursive_drop removes every mask of the given name and nothing else, in place only on request; leaf_masks and flatten produce exactly the leaf, per-key aggregate, or per-level masks they describe under the group's own keys. equal_to is true exactly for groups with the same keys, nesting and mask contents.",
 ["inputs"], "all group shapes and nesting depths, all mask lengths and contents",
 "Random groups are only serialised and re-read; aggregation, slicing, dropping, flattening and copy isolation are untested, and equal_to is only ever asked about equal groups.",
 [D, S], [("MaskGroup", D), ("_maskgroup_equal", D), ("leaf_masks / _leaf_mask_iter", S)],
 observe=["MaskGroup.data", "MaskGroup.__getitem__", "MaskGroup.copy", "MaskGroup.recursive_drop", "MaskGroup.flatten", "MaskGroup.equal_to", "select.leaf_masks"])
prop("C11", "Containers store, index, copy and serialise exactly the data given",
 "Each data container holds one row per particle with exactly the values supplied; structured momentum and edge input is placed by field name (accepting px/py/pz, pe or E, and in/out) whatever the field order, and a wrong number of columns raises ValueError. Indexing by integer, slice, index list, Boolean array or mask returns a container of the same type holding exactly the addressed rows, in order (one row for an integer); iteration and serialize list the rows in order, and rebuilding from serialize gives equal data. copy has equal data and shares no memory with the original.",
 ["inputs"], "all lengths, contents and index kinds, all field orders and aliases, for PdgArray, MomentumArray, ColorArray, HelicityArray, StatusArray, MaskArray and AdjacencyList",
 "Tests build containers from one plain list layout and read one element; named fields, aliases, reordering, integer indexing of two-column data, copies and serialisation of data containers are not covered.",
 [D], [("_array_field converter, _reorder_pmu, _reorder_edges", D), ("__getitem__, __iter__, copy, serialize of each class", D)],
 observe=["constructors, __getitem__, __iter__, __len__, copy, serialize"])
prop("C12", "Filtering or copying an event keeps all particle attributes aligned",
 "Indexing a ParticleSet or Graphicle with a mask, slice or index list applies that same selection to every attribute that is present (including edges and edge weights), leaves absent attributes absent, and changes neither the original nor the order, so row k of every attribute still describes the same particle. copy and from_numpy/from_event place every attribute under its own name with equal data, copies share no memory with the original, len is the common particle count, truth is having any data, and serialize lists every attribute. from_lhe_event gives the hard-process status codes, marks nothing final, and leaves the event it reads unchanged.",
 ["inputs", "configurations"], "all particle counts, all subsets of attributes present, all selections",
 "No test builds a ParticleSet or a Graphicle.",
 [D], [("_composite_getitem, _composite_copy, _composite_len, _composite_bool, _nonempty_dsets", D), ("ParticleSet.from_numpy/from_lhe_event, Graphicle.from_numpy/from_event", D)],
 observe=["ParticleSet", "Graphicle"])
prop("C13", "Arithmetic and comparison on containers act on their data",
 "Applying a numpy ufunc or Python operator to containers equals applying it to the underlying arrays: results stay in the same container type, Boolean results become a MaskArray, reductions over particles give a one-element container for momenta and a scalar for one-column data, and axis=1 reductions a plain array. == and != between a container and another container, an equal-length array of the same dtype, or a single row give a mask with one entry per particle that is true exactly where all fields agree (respectively do not). Operands are unaltered unless given as the output.",
 ["inputs"], "all containers, lengths, ufuncs of one or two operands, and right-hand operand kinds",
 "One addition and one np.sum appear in the suite, in each case with a single momentum; comparison operators never appear.",
 [D], [("_array_ufunc", D), ("_array_eq_prep, _array_eq, _array_ne", D)], observe=["operators on containers"])
prop("C14", "PDG and status queries select exactly the matching particles",
 "PdgArray.mask(target) is true exactly for particles whose code is not in target (blacklist) or is in target (whitelist), ignoring the sign of both codes and targets unless sign_sensitive. StatusArray.in_range is true exactly where min<=status<=max, inclusive, on absolute values unless sign_sensitive, unbounded above when max is None; hard_mask has four members, incoming, intermediate, outgoing and outgoing_nonperturbative_diffraction, true exactly where |status| is 21, 22, 23 and 24, aggregated by or.",
 ["inputs"], "all code arrays, targets, bounds and flag combinations",
 "Only the names of six quarks are tested; no query is.",
 [D], [("PdgArray.mask", D), ("StatusArray.in_range, hard_mask", D)], observe=["PdgArray.mask", "StatusArray.in_range", "StatusArray.hard_mask"])
prop("C15", "Edge lists, roots, leaves and adjacency matrices describe the same graph",
 "For every edge list, nodes lists each vertex id once in ascending magnitude; roots marks exactly the edges whose source is no edge's destination and leaves exactly those whose destination is no edge's source. matrix has one row and column per vertex in ascending id order and sums, over parallel edges, 1 or the edge weight; from_matrix lists exactly the non-zero entries with their values as weights when asked. Indexing and copying an edge list keep each edge's own weight.",
 ["inputs"], "all edge lists (negative and non-contiguous ids, parallel edges) and weights; all square matrices",
 "AdjacencyList is never constructed by the tests.",
 [D], [("AdjacencyList.nodes/roots/leaves/matrix/from_matrix/to_sparse/copy/__getitem__", D)],
 observe=["AdjacencyList"])
prop("C16", "Descendant selection is exactly graph reachability",
 "vertex_descendants(adj, v) is true exactly for the edges whose source is v or reachable from v, or, when v has no outgoing edge, for the edges arriving at v; edge_descendants adds exactly the given edge. hadron_vertices lists each source vertex of a particle with |status| in 80..90 once. hard_descendants gives one uniquely named mask per selected intermediate or outgoing hard parton, equal to that parton's own edge plus everything descending from its end vertex, and raises ValueError when required targets are missing.",
 ["inputs"], "all directed graphs, vertex ids, target sets and flag combinations; duplicate parton names",
 "No test touches graph traversal.",
 [S, D], [("vertex_descendants, edge_descendants, hadron_vertices, hard_descendants, _pdgs_to_keys", S), ("AdjacencyList._sparse_csr", D)],
 observe=["select.vertex_descendants", "select.edge_descendants", "select.hadron_vertices", "select.hard_descendants"])
prop("C17", "The hard-process hierarchy nests partons and partitions hadrons correctly",
 "hierarchy nests every hard parton once, under its closest hard ancestor, with every leaf mask being that parton and its descendants and each parent's latent mask being the parent's own mask minus its children's. partition_descendants leaves the input, the tree shape and everything but final-state descendants of shared hadronisation vertices unchanged, and there gives each final-state particle to a leaf exactly when the incoming parton with the smallest pt-weighted distance to it belongs to that leaf.",
 ["inputs"], "all event records whose hard process is a forest, any number of partons and particles",
 "No test builds an event record with a hard process.",
 [S], [("hierarchy, _make_tree, _flat_hierarchy, _hard_ancestor_matrix, _hard_parent_matrix", S), ("partition_descendants, _partition_vertex", S)],
 observe=["select.hierarchy", "select.partition_descendants"])
prop("C18", "Radius pruning and colour-singlet grouping follow their definitions",
 "centroid_prune keeps exactly the (masked) particles whose eta-phi distance, with azimuth wrapped, to the given centre (or by default to the resultant of the considered particles) is below radius, in a mask over the full input. color_singlets lists exactly the pairs and triples of coloured outgoing hard partons whose sets of colours and of anticolours coincide, or with invert the coloured partons in no such group.",
 ["inputs"], "all momenta, masks, centres and radii; all colour assignments of the outgoing partons",
 "Neither function is exercised by the tests.",
 [S], [("centroid_prune", S), ("color_singlets", S)], observe=["select.centroid_prune", "select.color_singlets"])
prop("C19", "Cluster tagging assigns distinct clusters at minimum total cost",
 "arg_closest returns one distinct candidate index per focus element, minimising the total of the documented distance-and-pt Gaussian costs over all assignments, and leaves both operands and every array previously read from them unchanged. monte_carlo_tag maps each selected hard parton (outgoing and/or intermediate, black- or white-listed with or without sign) by unique name to the cluster mask so assigned from the summed cluster momenta, and raises the documented errors for empty, too few or wrongly sized clusters and for filters matching nothing.",
 ["inputs"], "all focus and candidate momenta, all cluster masks, all filter flags",
 "Neither function is exercised by the tests.",
 [S, C], [("arg_closest, monte_carlo_tag", S), ("_assignment_cost", C)], observe=["select.arg_closest", "select.monte_carlo_tag"])
prop("C20", "Adjacency builders keep exactly the edges their criterion admits",
 "cut_adj keeps exactly the entries strictly below the cut (mode 'max') or strictly above it ('min'), with the affinity as weight when weighted and Boolean otherwise, and a diagonal of zeros or, with self_loop, ones. knn_adj keeps in each column of the affinity matrix (each row of the result's transpose for row=False) the k smallest entries besides the zero self-affinity, or including it with self_loop, for every k up to the number available; fc_adj is all ones apart from a zero diagonal unless self_loop. The affinity matrix is never altered.",
 ["inputs", "configurations"], "all square matrices, cuts, k and flag combinations",
 "No test imports the matrix module.",
 [M], [("cut_adj, knn_adj, fc_adj", M)], observe=["matrix.cut_adj", "matrix.knn_adj", "matrix.fc_adj"])
prop("C21", "Set distances, overlaps and clustering coefficients match their definitions",
 "jaccard_distance is the weight of the symmetric difference over the weight of the union, 0 when the union weighs nothing, is symmetric, and treats missing weights as ones. any_overlap is true exactly when two masks of the group share a true element. cluster_coeff_distbn gives each particle the fraction of pairs of its neighbours (closer than radius, itself excluded) that are themselves neighbours, and 0 with fewer than two neighbours.",
 ["inputs"], "all masks, weights, groups, momenta and radii",
 "None of these functions is exercised by the tests.",
 [C, S], [("_jaccard_distance, jaccard_distance, _clust_coeffs, cluster_coeff_distbn", C), ("any_overlap", S)],
 observe=["calculate.jaccard_distance", "select.any_overlap", "calculate.cluster_coeff_distbn"])
prop("C22", "Random momenta are physical, isotropic and reproducible",
 "from_spherical_uniform(n, emax) returns n momenta with 0<=E<=emax and |p|<=E, exactly |p|=E for the fraction asked to be massless (all of them for massless=1), with directions uniform over the whole sphere: cos(theta) uniform on [-1, 1] and an independent azimuth uniform on [-pi, pi]. A massless probability outside [0, 1] raises ValueError, and equal seeds give equal results.",
 ["inputs"], "all sizes, energies, massless probabilities and seeds, and all values the random source can deliver",
 "The suite draws random momenta only as input to another test and never looks at their distribution or mass shell.",
 [D, C], [("MomentumArray.from_spherical_uniform", D), ("_root_diff_two_squares", C)], observe=["MomentumArray.from_spherical_uniform"])
prop("C23", "Jet clustering output is a pt-ordered family of disjoint masks",
 "fastjet_clusters returns MaskArrays over the input particles, one per jet passing pt_cut and |eta|<eta_cut, each true exactly for that jet's constituents (so masks are disjoint), ordered by descending jet pt and limited to the top_k hardest; p_val -1, 0 and 1 select anti-kt, Cambridge-Aachen and kt and any other value the generalised algorithm. Invalid radius, cuts or top_k raise ValueError, and the input momenta are not altered.",
 ["inputs", "configurations"], "all momenta, radii, exponents, cuts and top_k",
 "No test calls fastjet_clusters.",
 [S], [("fastjet_clusters", S)], observe=["select.fastjet_clusters"])
prop("C24", "find_vertex returns exactly the vertices with the requested particles",
 "find_vertex returns the ids of exactly those vertices whose incoming particles include every code in pdgs_in and whose outgoing particles include every code in pdgs_out, and raises ValueError when neither set is given.",
 ["inputs"], "all edge lists and PDG codes, all search sets",
 "find_vertex is not exercised by the tests.",
 [S], [("find_vertex", S)], observe=["select.find_vertex"])
prop("C25", "Queries and transforms leave operands and thread settings untouched",
 "No public query, calculation, selection or transform changes the data of any operand, or of any array obtained from it, unless documented as in place, and whatever is computed as a new object shares no mutable data that would let changing it alter an operand (field access and slices are views, and groups which collect existing masks, such as leaf_masks, flatten and monte_carlo_tag, hold those same masks). Functions taking a thread count restore the process-wide setting even when they fail, and their results do not depend on the thread count.",
 ["inputs", "configurations", "schedules"], "all operands, thread counts and interleavings of the parallel kernels' iterations",
 "Tests inspect return values only, with one thread; no operand is re-read after a call.",
 [D, C, S, T, M], [("_thread_scope and parallel kernels", C), ("shift_*, split_*, arg_closest, partition_descendants, hierarchy", S)],
 observe=["all public functions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
