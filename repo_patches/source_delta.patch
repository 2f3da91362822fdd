From 50fcac9cfb5b76f8c7eab716dcc8d9c2ba8dcd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 01/20] fix: replace np.in1d, removed from numpy 2.4, with
 np.isin

---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..c2a8a3f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From 69bbfb3e0670a7f889531fb73d5d1b5980a6439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/20] fix: any_overlap read a MaskGroup attribute which does
 not exist

---
 graphicle/select.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c2a8a3f..f445ab7 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,9 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    combos = it.combinations(masks.values(), 2)
+    pair_checks = it.starmap(op.and_, combos)
+    return any(map(np.any, pair_checks))
 
 
 def centroid_prune(
-- 
2.43.0


From 7e20eda1807612a3cad8621b2efed1ab2f55bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 03/20] fix: keep edge weights when indexing or copying an
 AdjacencyList

---
 graphicle/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..bca7af0 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2477,11 +2477,12 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        weights = self.weights[key] if self.weights.size > 0 else self.weights
+        return self.__class__(self._data[key].reshape(-1, 2), weights)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From 198452f734c01201b3287d66c0c6a49839663de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 04/20] fix: arg_closest overwrote the rapidity array of its
 candidates

---
 graphicle/select.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index f445ab7..7ff016b 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1224,11 +1224,10 @@ def arg_closest(
     with gcl.calculate._thread_scope(num_threads):
         cost_matrix = gcl.calculate._assignment_cost(
             focus.rapidity,
-            candidate.rapidity,
+            candidate.rapidity.copy(),  # overwritten by the kernel
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From 5cf577e8cc0e2827c4439044652610a14e24710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 05/20] fix: knn_adj failed when asked for all of the
 neighbours

---
 graphicle/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..c6d3470 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -133,7 +133,7 @@ def knn_adj(
     axis = 0  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
+    knn_idxs = np.argpartition(matrix, kth=k - 1, axis=axis)
     near = knn_idxs[:k]
     edge_weights = 1
     if weighted is True:
-- 
2.43.0


From 3533081da674dbf272b16725c19506abd6330481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/20] fix: comparing edge lists, or containers with
 structured arrays, raised

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index bca7af0..c03bbcf 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -242,10 +242,10 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From 9aed299bd35ba1c6d2407458fd6f54f5025d3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 07/20] fix: event shapes divided by zero for particles at rest

---
 graphicle/calculate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..ef1e580 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -432,6 +432,8 @@ def aggregate_momenta(
 @nb.njit("float64(float64, float64, float64)", cache=True)
 def _three_norm(x: float, y: float, z: float) -> float:
     max_component = max(abs(x), abs(y), abs(z))
+    if max_component == 0.0:
+        return 0.0
     max_recip = 1.0 / max_component
     x *= max_recip
     y *= max_recip
@@ -672,6 +674,8 @@ def _spherocity_with_grad(
         cross_y = z * ax_x - x * ax_z
         cross_z = x * ax_y - y * ax_x
         cross_norm = _three_norm(cross_x, cross_y, cross_z)
+        if cross_norm == 0.0:
+            continue  # at rest or along the axis
         cross_norm_sum += cross_norm
         # accumulate gradient contributions
         x_sq, y_sq = x * x, y * y
@@ -806,6 +810,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             x_j, y_j, z_j = pmu_j["x"], pmu_j["y"], pmu_j["z"]
             norm_j = _three_norm(x_j, y_j, z_j)
             norm_prod = norm_i * norm_j
+            if norm_prod == 0.0:
+                continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
             output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
     return 1.5 * output / (norm_sum * norm_sum)
-- 
2.43.0


From 9c006c2066f68e006265fa11c6ec23b46305ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/20] fix: from_lhe_event overwrote the status codes of the
 event it read

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index c03bbcf..7c42ac7 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2331,6 +2331,7 @@ class ParticleSet(base.ParticleBase):
         """
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
+        pcls.status = pcls.status.copy()  # modified in place below
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
-- 
2.43.0


From c127a8efd795133e710c6cc92141c1bfb4fe931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 09/20] fix: hard_descendants marked the wrong partons when
 given a target

---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 7ff016b..5879865 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask.data]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From 5442e66902113973bb57a32ca0aff36c852660a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 10/20] fix: single rows of ColorArray and AdjacencyList lost
 their row axis

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 7c42ac7..c51e157 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -439,7 +439,7 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
         not_empty = array.shape[0] != 0
         if not_empty and (cols != num_cols):
             raise ValueError(f"Number of columns must be equal to {num_cols}")
-        return array
+        return array.reshape(-1, num_cols) if is_flat else array
 
     return field(
         default=Factory(
-- 
2.43.0


From 877508bdf0359b0d63ae96360039af4bcc2657d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 11/20] fix: _axis_to_angles returned latitude instead of
 inclination

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From 3a92143f0000f28e7098fab9867d7cb821910cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 12/20] fix: from_spherical_uniform swapped longitudinal and
 transverse momentum

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index c51e157..b36aa49 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1408,7 +1408,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1416,7 +1416,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From a031708a926515d64254e5ae15ebb7f32e965f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 13/20] fix: PdgArray.mask compared absolute codes with signed
 targets

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index b36aa49..983c629 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1225,6 +1225,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From 990e50b2f01e11685cdbcc1fb5eccdb0b16b6cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 14/20] fix: hierarchy marked the edge of the parent parton in
 its children

---
 graphicle/select.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 5879865..0462450 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -867,12 +867,7 @@ def _make_tree(
                     branch[parton].data != desc[parton].data
                 )
             else:
-                mask = desc[parton]
-                in_edge = adj.edges["src"][mask][0]
-                initial_parton_mask = adj.edges["dst"] == in_edge
-                if np.sum(initial_parton_mask) == 1:
-                    mask.data[initial_parton_mask] = True
-                branch[parton] = mask
+                branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From bac36d945c701ac358d9e13d8da3ef34af3c03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 15/20] fix: hierarchy dropped partons with no hard parent or
 children

---
 graphicle/select.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 0462450..f5c8d69 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -812,16 +812,16 @@ def hierarchy(
         return desc
     hard_desc = desc[hard_mask][list(names)]
     hard = _flat_hierarchy(hard_desc)
-    keys = set(hard.keys())
     vals = set(it.chain.from_iterable(hard.values()))
-    roots = keys.difference(keys.intersection(vals))
+    roots = set(names).difference(vals)
     hard_final = hard_mask & graph.final
     if np.any(hard_final):
         hard_final_keys = it.compress(names, hard_final[hard_mask].data)
         hard_final_idxs = np.flatnonzero(hard_final)
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
-    masks = _make_tree(hard, roots, hard, desc, graph.adj)
+    flat = {name: hard.get(name, ()) for name in names}
+    masks = _make_tree(flat, roots, hard, desc, graph.adj)
     return masks
 
 
@@ -853,6 +853,9 @@ def _make_tree(
     branch = gcl.MaskGroup(agg_op="or")  # type: ignore
     if isinstance(flat, dict):
         for key, nest in filter(lambda item: item[0] in roots, flat.items()):
+            if not nest:  # no partons descend from this one
+                branch[key] = desc[key]
+                continue
             branch[key] = _make_tree(nest, roots, hard, desc, adj)
             branch[key]["latent"] = (  # type: ignore
                 branch[key].data != desc[key].data
-- 
2.43.0


From 4edc30648d28aade358b4987715445d20d14a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 16/20] fix: comparing a MaskArray with a MaskGroup raised a
 TypeError

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 983c629..04f36ff 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -618,7 +618,7 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.equal(mask1, mask2))
+    return MaskArray(np.equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
@@ -639,7 +639,7 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.not_equal(mask1, mask2))
+    return MaskArray(np.not_equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 _IN_MASK_DICT = ty.Mapping[
-- 
2.43.0


From c1dff428f2e80870b6da098039f09817daeeef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 17/20] fix: spherocity gradient used y instead of z in one
 term

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index ef1e580..e43e80c 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -687,7 +687,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0


From e0b336d8e429b61ba982ee1015f3655d581d12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 18/20] fix: event shapes report the value at the axis they
 return

---
 graphicle/calculate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index e43e80c..8e1b6d6 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -619,7 +619,7 @@ def thrust(
         jac=True,
         args=(pmu.data,),
     )
-    thrust_val = -optim.fun
+    thrust_val = -_thrust_with_grad(optim.x, pmu.data)[0]
     if return_axis:
         return thrust_val, _angles_to_axis(optim.x)
     return thrust_val
@@ -793,7 +793,7 @@ def spherocity(
         jac=True,
         args=(pmu.data,),
     )
-    sph_val = optim.fun
+    sph_val = _spherocity_with_grad(optim.x, pmu.data)[0]
     if return_axis:
         return sph_val, _angles_to_axis(optim.x)
     return sph_val
-- 
2.43.0


From 64741d3f3c24275c3187eccf3afebc5050134065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 19/20] fix: roots, leaves and matrix of an empty edge list
 raised

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 04f36ff..0a8e12b 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2646,7 +2646,7 @@ class AdjacencyList(base.AdjacencyBase):
             are ``"dst"`` indices for ``AdjacencyList.edges``.
         """
         abs_edges = self._edge_relabel
-        size = np.max(abs_edges) + 1
+        size = np.max(abs_edges, initial=-1) + 1
         if data is None:
             data = np.sign(self.data["dst"]) == 1
         return coo_array(
-- 
2.43.0


From ce4ba706f16da114f8091da620a5763d031f5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 20/20] fix: arg_closest divided by zero for candidates which
 are all alike

---
 graphicle/calculate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 8e1b6d6..e151a9b 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -933,12 +933,15 @@ def _assignment_cost(
     pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
     for pol_idx, pol_val in enumerate(xy_pol_2):
         pt_2[pol_idx] = abs(pol_val)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    # candidates which are all alike are not told apart by that variable
+    var_pt = np.var(pt_2)
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
-- 
2.43.0

