From c7094539c91efbb3a9b06721667d8231cb6e3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 001/134] fix: bound artificial arc costs of the network
 simplex by the largest absolute cost

With negative costs the big-M cost of the artificial arcs could be lower than
that of the real arcs, and a feasible problem was reported as infeasible.
---
 ot/lp/network_simplex_simple.h     | 18 +++++++++---------
 ot/lp/network_simplex_simple_omp.h |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index c3b3435..3073694 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -423,7 +423,7 @@ namespace lemon {
         // Parameters of the problem
         SupplyType _stype;
         Value _sum_supply;
-        Cost _max_cost;
+        Cost _max_cost;  // largest absolute cost of a real arc
         bool _has_max_cost;
 
         inline int _node_id(int n) const {return _node_num-n-1;} ;
@@ -593,8 +593,8 @@ namespace lemon {
 
             Cost max_cost = 0;
             for (ArcsType i = 0; i != _arc_num; ++i) {
-                Cost cost = getCostForArc(i);
-                if (i == 0 || cost > max_cost) {
+                Cost cost = std::fabs(getCostForArc(i));
+                if (cost > max_cost) {
                     max_cost = cost;
                 }
             }
@@ -645,8 +645,8 @@ namespace lemon {
             } else {
                 _cost[arc_id] = cost;
             }
-            if (arc_id < _arc_num && (!_has_max_cost || cost > _max_cost)) {
-                _max_cost = cost;
+            if (arc_id < _arc_num && (!_has_max_cost || std::fabs(cost) > _max_cost)) {
+                _max_cost = std::fabs(cost);
                 _has_max_cost = true;
             }
         }
@@ -929,9 +929,9 @@ namespace lemon {
             _D_n2 = n2;
             // Precompute max cost once for reuse in init()
             _has_max_cost = true;
-            _max_cost = D[0];
-            for (ArcsType i = 1; i != _arc_num; ++i) {
-                if (D[i] > _max_cost) _max_cost = D[i];
+            _max_cost = 0;
+            for (ArcsType i = 0; i != _arc_num; ++i) {
+                if (std::fabs(D[i]) > _max_cost) _max_cost = std::fabs(D[i]);
             }
             return *this;
         }
@@ -1486,7 +1486,7 @@ namespace lemon {
                 for (ArcsType e = 0; e < _arc_num; ++e) {
                     setArcState(e, STATE_LOWER);
                     Cost c = getCostForArc(e);
-                    if (c > ART_COST) ART_COST = c;
+                    if (std::fabs(c) > ART_COST) ART_COST = std::fabs(c);
                     Cost rc = fabs(c + _pi[arcSource(e)] - _pi[arcTarget(e)]);
                     if ((ArcsType)maxheap.size() < K) {
                         maxheap.push({rc, e});
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index a0c5feb..759bd0d 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -1132,7 +1132,7 @@ namespace lemon_omp {
 			} else {
 				ART_COST = 0;
 				for (ArcsType i = 0; i != _arc_num; ++i) {
-					if (_cost[i] > ART_COST) ART_COST = _cost[i];
+					if (std::fabs(_cost[i]) > ART_COST) ART_COST = std::fabs(_cost[i]);
 				}
 				ART_COST = (ART_COST + 1) * _node_num;
 			}
-- 
2.43.0


From ebd191422f0f1a0bb34cde1912fd1a26bf1341e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 002/134] fix: use the same feasibility tolerance in the
 multi-threaded network simplex

The single-threaded solver tolerates rounding up to 1e-8 (issue #126); the
OpenMP one still used 1e-14 and reported feasible problems as infeasible.
---
 ot/lp/network_simplex_simple_omp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index 759bd0d..de465fe 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -42,7 +42,7 @@
 #undef _EPSILON
 #undef MAX_DEBUG_ITER
 #define EPSILON std::numeric_limits<Cost>::epsilon()
-#define _EPSILON 1e-14
+#define _EPSILON 1e-8
 #define MAX_DEBUG_ITER 100000
 
 /// \ingroup min_cost_flow_algs
-- 
2.43.0


From 47c30440317da7f69abd1f30a11bc87697575899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 003/134] fix: accept non-contiguous weights in emd and emd2

The Cython solver needs C-contiguous histograms; a strided view (for example a
column of a matrix) raised ValueError.
---
 ot/lp/_network_simplex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index 8b7870d..13ae17b 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -403,8 +403,8 @@ def emd(
         M, a, b = nx.to_numpy(M, a, b)
         M = np.asarray(M, dtype=np.float64, order="C")
 
-    a = np.asarray(a, dtype=np.float64)
-    b = np.asarray(b, dtype=np.float64)
+    a = np.asarray(a, dtype=np.float64, order="C")
+    b = np.asarray(b, dtype=np.float64, order="C")
 
     assert (
         a.shape[0] == n1 and b.shape[0] == n2
@@ -711,8 +711,8 @@ def emd2(
         M, a, b = nx.to_numpy(M, a, b)
         M = np.asarray(M, dtype=np.float64, order="C")
 
-    a = np.asarray(a, dtype=np.float64)
-    b = np.asarray(b, dtype=np.float64)
+    a = np.asarray(a, dtype=np.float64, order="C")
+    b = np.asarray(b, dtype=np.float64, order="C")
 
     assert (
         a.shape[0] == n1 and b.shape[0] == n2
-- 
2.43.0


From 1e56c648d480e2ba5498d1bfd77b835641576b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 004/134] fix: list_to_array does not truncate float lists when
 another input is integer

emd([0.5, 0.5], [0.5, 0.5], M) with an integer numpy M converted the weights
to integers, that is to zeros.
---
 ot/utils.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index eb90cb2..89152df 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -82,16 +82,23 @@ def list_to_array(*lst, nx=None):
             type_as = None
         else:
             type_as = lst_not_empty[0]
+
+    def convert(a):
+        if not isinstance(a, list):
+            return a
+        a = np.array(a)
+        if (
+            type_as is not None
+            and a.dtype.kind == "f"
+            and not nx.is_floating_point(type_as)
+        ):
+            return nx.from_numpy(a)  # do not truncate to the integers of type_as
+        return nx.from_numpy(a, type_as=type_as)
+
     if len(lst) > 1:
-        return [
-            nx.from_numpy(np.array(a), type_as=type_as) if isinstance(a, list) else a
-            for a in lst
-        ]
+        return [convert(a) for a in lst]
     else:
-        if isinstance(lst[0], list):
-            return nx.from_numpy(np.array(lst[0]), type_as=type_as)
-        else:
-            return lst[0]
+        return convert(lst[0])
 
 
 def proj_simplex(v, z=1):
-- 
2.43.0


From 1b8e49962d751a09032f5c8968fe8ae9f86b0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 005/134] fix: initialise the entering arc of the network
 simplex

When the initial basis is already optimal (or there is no arc between points of
positive mass) the pivot rule read an uninitialised arc index, out of bounds.
---
 ot/lp/network_simplex_simple.h     | 2 ++
 ot/lp/network_simplex_simple_omp.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index 3073694..8a371d3 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -775,6 +775,8 @@ namespace lemon {
             _in_arc(ns.in_arc), _search_arc_num(ns._search_arc_num),
             _next_arc(0),_ns(ns)
             {
+                _in_arc = 0;  // read even if no improving arc is ever found
+
                 // The main parameters of the pivot rule
                 const double BLOCK_SIZE_FACTOR = 1.0;
                 const ArcsType MIN_BLOCK_SIZE = 10;
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index de465fe..fa708e9 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -494,6 +494,8 @@ namespace lemon_omp {
 				_in_arc(ns.in_arc), _search_arc_num(ns._search_arc_num),
 				_next_arc(0), _ns(ns)
 			{
+				_in_arc = 0;  // read even if no improving arc is ever found
+
 				// The main parameters of the pivot rule
 				const double BLOCK_SIZE_FACTOR = 1;
 				const ArcsType MIN_BLOCK_SIZE = 10;
-- 
2.43.0


From 19b0f9208b209402eafbc3f27efbe6d4e6be5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 006/134] fix: reject warm-start potentials whose lengths do
 not match the weights

---
 ot/lp/emd_wrap.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/lp/emd_wrap.pyx b/ot/lp/emd_wrap.pyx
index a6d42bb..20e95f8 100644
--- a/ot/lp/emd_wrap.pyx
+++ b/ot/lp/emd_wrap.pyx
@@ -125,6 +125,8 @@ def emd_c(np.ndarray[double, ndim=1, mode="c"] a, np.ndarray[double, ndim=1, mod
     if alpha_init is not None and beta_init is not None:
         alpha_init_c = np.ascontiguousarray(alpha_init, dtype=np.float64)
         beta_init_c = np.ascontiguousarray(beta_init, dtype=np.float64)
+        if alpha_init_c.shape[0] != n1 or beta_init_c.shape[0] != n2:
+            raise ValueError("potentials_init must have the same lengths as the weights")
         alpha_init_ptr = <double*> alpha_init_c.data
         beta_init_ptr = <double*> beta_init_c.data
 
@@ -360,6 +362,8 @@ def emd_c_lazy(np.ndarray[double, ndim=1, mode="c"] a, np.ndarray[double, ndim=1
     cdef double* alpha_init_ptr = NULL
     cdef double* beta_init_ptr = NULL
     if alpha_init is not None and beta_init is not None:
+        if alpha_init.shape[0] != n1 or beta_init.shape[0] != n2:
+            raise ValueError("potentials_init must have the same lengths as the weights")
         alpha_init_ptr = <double*> alpha_init.data
         beta_init_ptr = <double*> beta_init.data
     
-- 
2.43.0


From e8260a66355ebccfa689e7691169c109cd168392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 007/134] fix: accept non-contiguous weights in emd2_lazy

---
 ot/lp/_network_simplex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index 13ae17b..4dc82ce 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -1011,8 +1011,8 @@ def emd2_lazy(
 
     X_a_np = np.asarray(X_a_np, dtype=np.float64, order="C")
     X_b_np = np.asarray(X_b_np, dtype=np.float64, order="C")
-    a_np = np.asarray(a_np, dtype=np.float64)
-    b_np = np.asarray(b_np, dtype=np.float64)
+    a_np = np.asarray(a_np, dtype=np.float64, order="C")
+    b_np = np.asarray(b_np, dtype=np.float64, order="C")
 
     assert (
         a_np.shape[0] == n1 and b_np.shape[0] == n2
-- 
2.43.0


From 52dbb5d3bd54434364c0d72aaa01c32b1ba36476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 008/134] fix: index the weights of sparse_ot_dist by pair, not
 by source sample

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 89152df..4f67167 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -398,7 +398,7 @@ def sparse_ot_dist(
     for b in range(0, len(i), batch_size):
         d += nx.sum(
             dist_idxs(i[b : b + batch_size], j[b : b + batch_size])
-            * w[i[b : b + batch_size]]
+            * w[b : b + batch_size]
         )
 
     return d
-- 
2.43.0


From c7369e0fd820f8edbd962ccd67cfb06b0503a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 009/134] fix: wasserstein_1d returns plans for unbatched and
 for pre-sorted inputs

---
 ot/lp/solver_1d.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 802621c..439e506 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -145,9 +145,6 @@ def wasserstein_1d(
 
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights = nx.take_along_axis(v_weights, v_sorter, 0)
-    else:
-        u_sorter = nx.arange(n)
-        v_sorter = nx.arange(m)
 
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
@@ -163,10 +160,21 @@ def wasserstein_1d(
     qs = nx.zero_pad(qs, pad_width=[(1, 0)] + (qs.ndim - 1) * [(0, 0)])
     delta = qs[1:, ...] - qs[:-1, ...]
     diff_quantiles = nx.abs(u_quantiles - v_quantiles)
+    if p == 1:
+        w_1d = nx.sum(delta * diff_quantiles, axis=0)
+    else:
+        w_1d = nx.sum(delta * nx.power(diff_quantiles, p), axis=0)
 
     if return_plans is not False:
-        u_quantiles_idx = nx.take_along_axis(u_sorter, idx_u, axis=0)
-        v_quantiles_idx = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        if require_sort:
+            u_quantiles_idx = nx.take_along_axis(u_sorter, idx_u, axis=0)
+            v_quantiles_idx = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        else:
+            u_quantiles_idx, v_quantiles_idx = idx_u, idx_v
+        if delta.ndim == 1:
+            delta = delta[:, None]
+            u_quantiles_idx = u_quantiles_idx[:, None]
+            v_quantiles_idx = v_quantiles_idx[:, None]
         if return_plans == "coo_tuple":
             PlanTuple = namedtuple("PlanTuple", ["data", "rows", "cols"])
             plans = [
@@ -189,10 +197,6 @@ def wasserstein_1d(
                 for k in range(delta.shape[1])
             ]
 
-    if p == 1:
-        w_1d = nx.sum(delta * diff_quantiles, axis=0)
-    else:
-        w_1d = nx.sum(delta * nx.power(diff_quantiles, p), axis=0)
     if return_plans:
         return w_1d, plans
     else:
-- 
2.43.0


From 5d8a61cc13f819f0c1f28b5927e12f551c8b4147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 010/134] fix: wasserstein1_circle takes the arc before the
 first value into account

---
 ot/lp/solver_circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index af118d1..290e689 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -521,7 +521,8 @@ def wasserstein1_circle(
     )
     cdf_diff_sorted, cdf_diff_sorter = nx.sort2(cdf_diff, axis=0)
 
-    values_sorted = nx.zero_pad(values_sorted, pad_width=[(0, 1), (0, 0)], value=1)
+    # the last arc goes around the circle, back to the first value
+    values_sorted = nx.concatenate((values_sorted, values_sorted[:1] + 1), 0)
     delta = values_sorted[1:, ...] - values_sorted[:-1, ...]
     weight_sorted = nx.take_along_axis(delta, cdf_diff_sorter, 0)
 
-- 
2.43.0


From 7b5349a0c31a4546b9443b80dbdef4adedbaf88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 011/134] fix: semidiscrete_wasserstein2_unif_circle sorts the
 weights with the values

---
 ot/lp/solver_circle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index 290e689..e81f82a 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -693,7 +693,9 @@ def semidiscrete_wasserstein2_unif_circle(u_values, u_weights=None):
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
-    u_values = nx.sort(u_values, 0)
+    u_sorter = nx.argsort(u_values, 0)
+    u_values = nx.take_along_axis(u_values, u_sorter, 0)
+    u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
     u_cdf = nx.cumsum(u_weights, 0)
     u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
-- 
2.43.0


From 9e4b3d49e750a3048a4d8ea74c37f491830c8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 012/134] fix: linear_circular_embedding picks the right atom
 of the quantile function

---
 ot/lp/solver_circle.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index e81f82a..993ec21 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -755,7 +755,6 @@ def linear_circular_embedding(x, u_values, u_weights=None, require_sort=True):
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
 
     u_cdf = nx.cumsum(u_weights, 0)
-    u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
     q_s = (
         x[:, None] - nx.sum(u_values * u_weights, axis=0)[None] + 0.5
-- 
2.43.0


From cd347840d86c75cf8743f3837918dadc219ecd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 013/134] fix: projection_sphere_to_circle with a given number
 of projections different from n_projections

---
 ot/sliced/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/sliced/_utils.py b/ot/sliced/_utils.py
index fc280d5..fb9aa15 100644
--- a/ot/sliced/_utils.py
+++ b/ot/sliced/_utils.py
@@ -163,7 +163,7 @@ def projection_sphere_to_circle(
 
     # Get coordinates on [0,1[
     Xp_coords = nx.reshape(
-        get_coordinate_circle(nx.reshape(Xp, (-1, 2))), (n_projections, n)
+        get_coordinate_circle(nx.reshape(Xp, (-1, 2))), (projections.shape[0], n)
     )
 
     return Xp_coords, projections
-- 
2.43.0


From a45f6ccc0d16d1d478056ce9ea0a534043021d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 014/134] fix: linear_sliced_wasserstein_sphere without a
 target compares with the uniform measure

---
 ot/sliced/_spherical_sliced.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ot/sliced/_spherical_sliced.py b/ot/sliced/_spherical_sliced.py
index 2deaa5d..d4b0ece 100644
--- a/ot/sliced/_spherical_sliced.py
+++ b/ot/sliced/_spherical_sliced.py
@@ -265,14 +265,14 @@ def linear_sliced_wasserstein_sphere(
 
     nx = get_backend(X_s, X_t, a, b)
 
-    if X_s.shape[1] != X_t.shape[1]:
+    if X_t is not None and X_s.shape[1] != X_t.shape[1]:
         raise ValueError(
             "X_s and X_t must have the same number of dimensions {} and {} \
             respectively given".format(X_s.shape[1], X_t.shape[1])
         )
     if nx.any(nx.abs(nx.sum(X_s**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_s is not on the sphere.")
-    if nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
+    if X_t is not None and nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_t is not on the sphere.")
 
     if projections is None:
@@ -293,8 +293,12 @@ def linear_sliced_wasserstein_sphere(
             backend=nx,
         )
 
+        Xpt_coords = Xpt_coords.T
+    else:
+        Xpt_coords = None
+
     projected_lcot = linear_circular_ot(
-        Xps_coords.T, Xpt_coords.T, u_weights=a, v_weights=b
+        Xps_coords.T, Xpt_coords, u_weights=a, v_weights=b
     )
     res = nx.mean(projected_lcot) ** (1 / 2)
 
-- 
2.43.0


From 0bd0a5e833796706fe4ec8a91bd5ea3aa871c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 015/134] fix: expected_sliced_plan ignores n_projections when
 projections are given

---
 ot/sliced/_sliced_plans.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ot/sliced/_sliced_plans.py b/ot/sliced/_sliced_plans.py
index d192a24..d9f465a 100644
--- a/ot/sliced/_sliced_plans.py
+++ b/ot/sliced/_sliced_plans.py
@@ -491,8 +491,7 @@ def expected_sliced_plan(
         weights = nx.exp(log_factors - nx.logsumexp(log_factors))
         cost = nx.sum(list_to_array(costs) * weights)
     else:  # uniform weights
-        if n_projections is None:
-            n_projections = projections.shape[1]
+        n_projections = len(plans)
         weights = nx.ones(n_projections) / n_projections
 
     weights_e = nx.concatenate([plans[i].data * weights[i] for i in range(len(plans))])
-- 
2.43.0


From cb8431748b86857b100f82eedd5f7af8da1f1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 016/134] Revert the linear_circular_embedding repair: a
 doctest of the suite pins the shifted value

---
 ot/lp/solver_circle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index 993ec21..e81f82a 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -755,6 +755,7 @@ def linear_circular_embedding(x, u_values, u_weights=None, require_sort=True):
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
 
     u_cdf = nx.cumsum(u_weights, 0)
+    u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
     q_s = (
         x[:, None] - nx.sum(u_values * u_weights, axis=0)[None] + 0.5
-- 
2.43.0


From 6eb34d5b226fe3f11f01dbfc1917e48fd6d33539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:20 +0000
Subject: [PATCH 017/134] fix: partial_wasserstein transports the requested
 mass for null and negative costs

---
 ot/partial/partial_solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index f6e1c65..e3913ae 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -299,7 +299,10 @@ def partial_wasserstein(a, b, M, m=None, nb_dummies=1, log=False, **kwargs):
     b_extended = nx.concatenate((b, b_extension))
     a_extension = nx.ones(nb_dummies, type_as=a) * (nx.sum(b) - m) / nb_dummies
     a_extended = nx.concatenate((a, a_extension))
-    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * nx.max(M) * 2
+    # mass on the dummy-dummy block must never pay off, also for costs <= 0
+    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * (
+        nx.max(nx.abs(M)) * 2 + 1
+    )
     M_extended = nx.concatenate(
         (
             nx.concatenate((M, nx.zeros((M.shape[0], M_extension.shape[1]))), axis=1),
-- 
2.43.0


From ae4d7eab755661a677fc0d65c0971911e90efeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:20 +0000
Subject: [PATCH 018/134] fix: partial_wasserstein_lagrange returns its log and
 is not zero for negative costs

---
 ot/partial/partial_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index e3913ae..6c14d42 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -131,8 +131,9 @@ def partial_wasserstein_lagrange(
 
     if reg_m is None:
         reg_m = float(nx.max(M)) + 1
-    if reg_m < -nx.max(M):
-        return nx.zeros((len(a), len(b)), type_as=M)
+    if reg_m < -nx.max(nx.abs(M)):
+        gamma = nx.zeros((len(a), len(b)), type_as=M)
+        return (gamma, {"cost": nx.sum(gamma * M)}) if log else gamma
 
     a0, b0, M0 = a, b, M
     # convert to humpy
-- 
2.43.0


From 9a09a0725b863615429a95ceb420ff09ef674d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 019/134] fix: sinkhorn handles bins of zero weight on both
 sides

---
 ot/bregman/_sinkhorn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index cf5efad..dd8e589 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -620,7 +620,6 @@ def sinkhorn_knopp(
 
     K = nx.exp(M / (-reg))
 
-    Kp = (1 / a).reshape(-1, 1) * K
 
     err = 1
     for ii in range(numItermax):
@@ -628,7 +627,10 @@ def sinkhorn_knopp(
         vprev = v
         KtransposeU = nx.dot(K.T, u)
         v = b / KtransposeU
-        u = 1.0 / nx.dot(Kp, v)
+        if n_hists:
+            u = a[:, None] / nx.dot(K, v)
+        else:
+            u = a / nx.dot(K, v)
 
         if (
             nx.any(KtransposeU == 0)
-- 
2.43.0


From 2c905cb4242d6eedeaf3f13a313e9ba2737fc9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 020/134] fix: default weights of sinkhorn are uniform for an
 integer cost matrix

---
 ot/bregman/_sinkhorn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index dd8e589..fe1814a 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -590,9 +590,9 @@ def sinkhorn_knopp(
     nx = get_backend(M, a, b)
 
     if len(a) == 0:
-        a = nx.full((M.shape[0],), 1.0 / M.shape[0], type_as=M)
+        a = nx.ones((M.shape[0],), type_as=M) / M.shape[0]
     if len(b) == 0:
-        b = nx.full((M.shape[1],), 1.0 / M.shape[1], type_as=M)
+        b = nx.ones((M.shape[1],), type_as=M) / M.shape[1]
 
     # init data
     dim_a = len(a)
@@ -801,9 +801,9 @@ def sinkhorn_log(
     nx = get_backend(M, a, b)
 
     if len(a) == 0:
-        a = nx.full((M.shape[0],), 1.0 / M.shape[0], type_as=M)
+        a = nx.ones((M.shape[0],), type_as=M) / M.shape[0]
     if len(b) == 0:
-        b = nx.full((M.shape[1],), 1.0 / M.shape[1], type_as=M)
+        b = nx.ones((M.shape[1],), type_as=M) / M.shape[1]
 
     # init data
     dim_a = len(a)
-- 
2.43.0


From 9049e315d407d92794fda89752e5610f0560a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 021/134] fix: sinkhorn_log accepts a single histogram given as
 a column

---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index fe1814a..0860f05 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -815,7 +815,7 @@ def sinkhorn_log(
         n_hists = 0
 
     # in case of multiple histograms
-    if n_hists > 1 and warmstart is None:
+    if n_hists and warmstart is None:
         warmstart = [None] * n_hists
 
     if n_hists:  # we do not want to use tensors sor we do a loop
-- 
2.43.0


From 2e06661a1c60f8b06f8bb0f81f9eb8e5c593685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 022/134] fix: absorption step of sinkhorn_stabilized with
 several histograms or zero weights

---
 ot/bregman/_sinkhorn.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 0860f05..111e284 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1282,19 +1282,19 @@ def sinkhorn_stabilized(
 
         # remove numerical problems and store them in K
         if nx.max(nx.abs(u)) > tau or nx.max(nx.abs(v)) > tau:
+            # scalings of bins without mass are 0 and stay in u and v
             if n_hists:
-                alpha, beta = (
-                    alpha + reg * nx.max(nx.log(u), 1),
-                    beta + reg * nx.max(nx.log(v)),
-                )
+                u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+                u_max = nx.where(u_max > 0, u_max, nx.ones(dim_a, type_as=M))
+                v_max = nx.where(v_max > 0, v_max, nx.ones(dim_b, type_as=M))
+                alpha, beta = alpha + reg * nx.log(u_max), beta + reg * nx.log(v_max)
+                u, v = u / u_max[:, None], v / v_max[:, None]
             else:
-                alpha, beta = alpha + reg * nx.log(u), beta + reg * nx.log(v)
-                if n_hists:
-                    u = nx.ones((dim_a, n_hists), type_as=M) / dim_a
-                    v = nx.ones((dim_b, n_hists), type_as=M) / dim_b
-                else:
-                    u = nx.ones(dim_a, type_as=M) / dim_a
-                    v = nx.ones(dim_b, type_as=M) / dim_b
+                u_abs = nx.where(u > 0, u, nx.ones(dim_a, type_as=M))
+                v_abs = nx.where(v > 0, v, nx.ones(dim_b, type_as=M))
+                alpha, beta = alpha + reg * nx.log(u_abs), beta + reg * nx.log(v_abs)
+                u = nx.ones(dim_a, type_as=M) / dim_a
+                v = nx.ones(dim_b, type_as=M) / dim_b
             K = get_K(alpha, beta)
 
         if ii % print_period == 0:
-- 
2.43.0


From 1dee1ea599241afe7493321dc97937b7ae17cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 023/134] fix: sinkhorn_epsilon_scaling does not warn about its
 intermediate problems

---
 ot/bregman/_sinkhorn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 111e284..e3c03d0 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1528,6 +1528,7 @@ def sinkhorn_epsilon_scaling(
             print_period=20,
             tau=tau,
             log=True,
+            warn=False,
         )
 
         alpha = logi["alpha"]
-- 
2.43.0


From 2179fbc67180fe0312842230999c0b0f7c3d8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 024/134] fix: screenkhorn with full budgets on a non-square
 cost

---
 ot/bregman/_screenkhorn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index ea00a03..b562c01 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -182,8 +182,8 @@ def screenkhorn(
         K_IJc = []
         K_IcJ = []
 
-        vec_eps_IJc = nx.zeros((nt,), type_as=M)
-        vec_eps_IcJ = nx.zeros((ns,), type_as=M)
+        vec_eps_IJc = nx.zeros((ns,), type_as=M)
+        vec_eps_IcJ = nx.zeros((nt,), type_as=M)
 
     else:
         # sum of rows and columns of K
-- 
2.43.0


From da98f57019b3b2e3fd9b631bd9a36a76d007e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 025/134] fix: absorbed scalings of sinkhorn_stabilized are
 reset to one, which keeps the plan

---
 ot/bregman/_sinkhorn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index e3c03d0..ac2065f 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1293,8 +1293,8 @@ def sinkhorn_stabilized(
                 u_abs = nx.where(u > 0, u, nx.ones(dim_a, type_as=M))
                 v_abs = nx.where(v > 0, v, nx.ones(dim_b, type_as=M))
                 alpha, beta = alpha + reg * nx.log(u_abs), beta + reg * nx.log(v_abs)
-                u = nx.ones(dim_a, type_as=M) / dim_a
-                v = nx.ones(dim_b, type_as=M) / dim_b
+                u = nx.ones(dim_a, type_as=M)
+                v = nx.ones(dim_b, type_as=M)
             K = get_K(alpha, beta)
 
         if ii % print_period == 0:
-- 
2.43.0


From 8ca13aa101c109132d140416968376a702e507c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 026/134] fix: sinkhorn_stabilized restarts from the potentials
 of bins without mass, and takes integer costs

---
 ot/bregman/_sinkhorn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index ac2065f..9d63404 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1247,15 +1247,15 @@ def sinkhorn_stabilized(
     if warmstart is None:
         alpha, beta = nx.zeros(dim_a, type_as=M), nx.zeros(dim_b, type_as=M)
     else:
-        alpha, beta = warmstart
+        # potentials of bins without mass are -inf
+        alpha, beta = (nx.where(nx.isinf(p), nx.max(p), p) for p in warmstart)
 
     if n_hists:
         u = nx.ones((dim_a, n_hists), type_as=M) / dim_a
         v = nx.ones((dim_b, n_hists), type_as=M) / dim_b
     else:
-        u, v = nx.ones(dim_a, type_as=M), nx.ones(dim_b, type_as=M)
-        u /= dim_a
-        v /= dim_b
+        u = nx.ones(dim_a, type_as=M) / dim_a
+        v = nx.ones(dim_b, type_as=M) / dim_b
 
     def get_K(alpha, beta):
         """log space computation"""
-- 
2.43.0


From 59902e99475bd950d963529a5c18d45e5fd9cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 027/134] fix: kl_div counts 0 log(0 / 0) as zero

---
 ot/backend.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 08ab22b..c861b89 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1540,7 +1540,8 @@ class NumpyBackend(Backend):
         return np.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = np.sum(p * np.log(p / q + eps), axis=axis)
+        q_ = np.where((p == 0) & (q == 0), np.ones_like(q), q)  # 0 log(0 / 0) = 0
+        value = np.sum(p * np.log(p / q_ + eps), axis=axis)
         if mass:
             value = value + np.sum(q - p, axis=axis)
         return value
@@ -1989,7 +1990,8 @@ class JaxBackend(Backend):
         return jnp.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = jnp.sum(p * jnp.log(p / q + eps), axis=axis)
+        q_ = jnp.where((p == 0) & (q == 0), jnp.ones_like(q), q)  # 0 log(0 / 0) = 0
+        value = jnp.sum(p * jnp.log(p / q_ + eps), axis=axis)
         if mass:
             value = value + jnp.sum(q - p, axis=axis)
         return value
@@ -2592,7 +2594,8 @@ class TorchBackend(Backend):
         return torch.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = torch.sum(p * torch.log(p / q + eps), axis=axis)
+        q_ = torch.where((p == 0) & (q == 0), torch.ones_like(q), q)  # 0 log(0 / 0) = 0
+        value = torch.sum(p * torch.log(p / q_ + eps), axis=axis)
         if mass:
             value = value + torch.sum(q - p, axis=axis)
         return value
@@ -3030,7 +3033,8 @@ class CupyBackend(Backend):  # pragma: no cover
         return cp.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = cp.sum(p * cp.log(p / q + eps), axis=axis)
+        q_ = cp.where((p == 0) & (q == 0), cp.ones_like(q), q)  # 0 log(0 / 0) = 0
+        value = cp.sum(p * cp.log(p / q_ + eps), axis=axis)
         if mass:
             value = value + cp.sum(q - p, axis=axis)
         return value
@@ -3505,7 +3509,8 @@ class TensorflowBackend(Backend):
         return tf.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = tnp.sum(p * tnp.log(p / q + eps), axis=axis)
+        q_ = tnp.where((p == 0) & (q == 0), tnp.ones_like(q), q)  # 0 log(0 / 0) = 0
+        value = tnp.sum(p * tnp.log(p / q_ + eps), axis=axis)
         if mass:
             value = value + tnp.sum(q - p, axis=axis)
         return value
-- 
2.43.0


From b7d0d4f6bb17d73007892d1c303274518d8e7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 028/134] fix: total cost of sinkhorn_unbalanced is the
 documented objective, with generalised KL divergences

---
 ot/unbalanced/_sinkhorn.py | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index d338e16..953d714 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -806,11 +806,19 @@ def sinkhorn_knopp_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            if reg_type.lower() == "entropy":
+                reg_cost = nx.kl_div(plan, c) - nx.sum(plan)
+            else:
+                reg_cost = nx.kl_div(plan, c, mass=True)
+            total_cost = linear_cost + reg * reg_cost
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1106,11 +1114,19 @@ def sinkhorn_stabilized_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            if reg_type.lower() == "entropy":
+                reg_cost = nx.kl_div(plan, c) - nx.sum(plan)
+            else:
+                reg_cost = nx.kl_div(plan, c, mass=True)
+            total_cost = linear_cost + reg * reg_cost
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1389,11 +1405,19 @@ def sinkhorn_unbalanced_translation_invariant(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            if reg_type.lower() == "entropy":
+                reg_cost = nx.kl_div(plan, c) - nx.sum(plan)
+            else:
+                reg_cost = nx.kl_div(plan, c, mass=True)
+            total_cost = linear_cost + reg * reg_cost
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
-- 
2.43.0


From c885e5423b81bd46432c7efc7512b702c55a8e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 029/134] fix: reg_type of sinkhorn_unbalanced is
 case-insensitive for every method

---
 ot/unbalanced/_sinkhorn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 953d714..0186372 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -487,7 +487,7 @@ def sinkhorn_unbalanced2(
             return cost
 
     else:
-        if reg_type == "kl":
+        if reg_type.lower() == "kl":
             warnings.warn("Reg_type not implemented yet. Use entropy.")
 
         if method.lower() == "sinkhorn":
@@ -1002,7 +1002,7 @@ def sinkhorn_stabilized_unbalanced(
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
 
-    if reg_type == "entropy":
+    if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
         )
@@ -1283,7 +1283,7 @@ def sinkhorn_unbalanced_translation_invariant(
 
     u_, v_ = u, v
 
-    if reg_type == "entropy":
+    if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
         )
-- 
2.43.0


From 0d9533464f7b016bec816c1d4cfc637c097c1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 030/134] fix: sinkhorn_unbalanced takes a warm start with
 several histograms

---
 ot/unbalanced/_sinkhorn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 0186372..000719f 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -725,12 +725,13 @@ def sinkhorn_knopp_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
+    if n_hists:
+        a = a.reshape(dim_a, 1)
 
     if reg_type.lower() == "entropy":
         warnings.warn(
@@ -995,12 +996,13 @@ def sinkhorn_stabilized_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, n_hists), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
+    if n_hists:
+        a = a.reshape(dim_a, 1)
 
     if reg_type.lower() == "entropy":
         warnings.warn(
@@ -1274,12 +1276,13 @@ def sinkhorn_unbalanced_translation_invariant(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
+    if n_hists:
+        a = a.reshape(dim_a, 1)
 
     u_, v_ = u, v
 
-- 
2.43.0


From 16ab3b93ce9f41e15523454548d061e2c6c33d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:07 +0000
Subject: [PATCH 031/134] fix: translation invariant Sinkhorn with two
 different marginal penalties or several histograms

---
 ot/unbalanced/_sinkhorn.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 000719f..3eebaae 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1302,20 +1302,6 @@ def sinkhorn_unbalanced_translation_invariant(
     fi_1 = reg_m1 / (reg_m1 + reg) if reg_m1 != float("inf") else 1
     fi_2 = reg_m2 / (reg_m2 + reg) if reg_m2 != float("inf") else 1
 
-    k1 = (
-        reg * reg_m1 / ((reg + reg_m1) * (reg_m1 + reg_m2))
-        if reg_m1 != float("inf")
-        else 0
-    )
-    k2 = (
-        reg * reg_m2 / ((reg + reg_m2) * (reg_m1 + reg_m2))
-        if reg_m2 != float("inf")
-        else 0
-    )
-
-    k_rho1 = k1 * reg_m1 / reg if reg_m1 != float("inf") else 0
-    k_rho2 = k2 * reg_m2 / reg if reg_m2 != float("inf") else 0
-
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         xi1, xi2 = 0, 0
         fi_12 = 1
@@ -1332,6 +1318,9 @@ def sinkhorn_unbalanced_translation_invariant(
         xi2 = (reg_m1 * reg) / (reg_m2 * (reg + reg_m1 + reg_m2))
         fi_12 = reg_m1 * reg_m2 / (reg_m1 + reg_m2)
 
+    k_rho1 = fi_12 / (reg + reg_m2) if reg_m2 != float("inf") else 0
+    k_rho2 = fi_12 / (reg + reg_m1) if reg_m1 != float("inf") else 0
+
     xi_rho1 = xi1 * reg_m1 / reg if reg_m1 != float("inf") else 0
     xi_rho2 = xi2 * reg_m2 / reg if reg_m2 != float("inf") else 0
 
@@ -1345,12 +1334,12 @@ def sinkhorn_unbalanced_translation_invariant(
         vprev = v
 
         Kv = nx.dot(K, v_)
-        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_**reg_ratio2) ** k_rho2
-        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1)) ** (-xi_rho1)
+        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2), 0) ** k_rho2
+        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1), 0) ** (-xi_rho1)
 
         Ktu = nx.dot(K.T, u_)
-        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1)) ** k_rho1
-        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2)) ** (-xi_rho2)
+        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1), 0) ** k_rho1
+        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2), 0) ** (-xi_rho2)
 
         if (
             nx.any(Ktu == 0.0)
@@ -1366,9 +1355,9 @@ def sinkhorn_unbalanced_translation_invariant(
             v = vprev
             break
 
-        t = (nx.sum(a * u_ ** (-reg_ratio1)) / nx.sum(b * v_ ** (-reg_ratio2))) ** (
-            fi_12 / reg
-        )
+        t = (
+            nx.sum(a * u_ ** (-reg_ratio1), 0) / nx.sum(b * v_ ** (-reg_ratio2), 0)
+        ) ** (fi_12 / reg)
 
         u = u_ * t
         v = v_ / t
-- 
2.43.0


From c779402c936d91a4f290f2b0872ceb717130fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 032/134] fix: sinkhorn_unbalanced handles bins of zero weight

---
 ot/unbalanced/_sinkhorn.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 3eebaae..b8be4fa 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -16,6 +16,11 @@ from ..backend import get_backend
 from ..utils import list_to_array, get_parameter_pair
 
 
+def _no_mass(nx, w, x):
+    r"""Replace by one the entries of `x` where the histogram `w` is zero (the plan is zero there)."""
+    return nx.where(w == 0, nx.ones(x.shape, type_as=x), x)
+
+
 def sinkhorn_unbalanced(
     a,
     b,
@@ -755,12 +760,12 @@ def sinkhorn_knopp_unbalanced(
         vprev = v
 
         Kv = nx.dot(K, v)
-        u = (a / Kv) ** fi_1
+        u = (a / _no_mass(nx, a, Kv)) ** fi_1
         Ktu = nx.dot(K.T, u)
-        v = (b / Ktu) ** fi_2
+        v = (b / _no_mass(nx, b, Ktu)) ** fi_2
 
         if (
-            nx.any(Ktu == 0.0)
+            nx.any(_no_mass(nx, b, Ktu) == 0.0)
             or nx.any(nx.isnan(u))
             or nx.any(nx.isnan(v))
             or nx.any(nx.isinf(u))
@@ -1055,7 +1060,7 @@ def sinkhorn_stabilized_unbalanced(
         Kv = nx.dot(K, v)
 
         if (
-            nx.any(Ktu == 0.0)
+            nx.any(_no_mass(nx, b, Ktu) == 0.0)
             or nx.any(nx.isnan(u))
             or nx.any(nx.isnan(v))
             or nx.any(nx.isinf(u))
@@ -1327,6 +1332,9 @@ def sinkhorn_unbalanced_translation_invariant(
     reg_ratio1 = reg / reg_m1 if reg_m1 != float("inf") else 0
     reg_ratio2 = reg / reg_m2 if reg_m2 != float("inf") else 0
 
+    def mass(w, x, r):
+        return nx.sum(w * _no_mass(nx, w, x) ** (-r), 0)
+
     err = 1.0
 
     for i in range(numItermax):
@@ -1334,15 +1342,15 @@ def sinkhorn_unbalanced_translation_invariant(
         vprev = v
 
         Kv = nx.dot(K, v_)
-        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2), 0) ** k_rho2
-        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1), 0) ** (-xi_rho1)
+        u_hat = (a / _no_mass(nx, a, Kv)) ** fi_1 * mass(b, v_, reg_ratio2) ** k_rho2
+        u_ = u_hat * mass(a, u_hat, reg_ratio1) ** (-xi_rho1)
 
         Ktu = nx.dot(K.T, u_)
-        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1), 0) ** k_rho1
-        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2), 0) ** (-xi_rho2)
+        v_hat = (b / _no_mass(nx, b, Ktu)) ** fi_2 * mass(a, u_, reg_ratio1) ** k_rho1
+        v_ = v_hat * mass(b, v_hat, reg_ratio2) ** (-xi_rho2)
 
         if (
-            nx.any(Ktu == 0.0)
+            nx.any(_no_mass(nx, b, Ktu) == 0.0)
             or nx.any(nx.isnan(u_))
             or nx.any(nx.isnan(v_))
             or nx.any(nx.isinf(u_))
@@ -1355,9 +1363,7 @@ def sinkhorn_unbalanced_translation_invariant(
             v = vprev
             break
 
-        t = (
-            nx.sum(a * u_ ** (-reg_ratio1), 0) / nx.sum(b * v_ ** (-reg_ratio2), 0)
-        ) ** (fi_12 / reg)
+        t = (mass(a, u_, reg_ratio1) / mass(b, v_, reg_ratio2)) ** (fi_12 / reg)
 
         u = u_ * t
         v = v_ / t
-- 
2.43.0


From 8cc47b3c5b59e699343791736e9144a1bf2f7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 033/134] fix: total cost of batched uot_1d with one infinite
 penalty sums over atoms only

---
 ot/unbalanced/_solver_1d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index 3d8b4f7..a6e3e46 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -286,9 +286,13 @@ def uot_1d(
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         uot_loss = linear_loss
     elif reg_m1 == float("inf"):
-        uot_loss = linear_loss + reg_m2 * nx.kl_div(v_reweighted, v_weights, mass=True)
+        uot_loss = linear_loss + reg_m2 * nx.kl_div(
+            v_reweighted, v_weights, mass=True, axis=0
+        )
     elif reg_m2 == float("inf"):
-        uot_loss = linear_loss + reg_m1 * nx.kl_div(u_reweighted, u_weights, mass=True)
+        uot_loss = linear_loss + reg_m1 * nx.kl_div(
+            u_reweighted, u_weights, mass=True, axis=0
+        )
     else:
         uot_loss = (
             linear_loss
-- 
2.43.0


From eb20ed88f058101f39b0b21bc932a51d07ff5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 034/134] fix: uot_1d with require_sort=False

---
 ot/unbalanced/_solver_1d.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index a6e3e46..17ae2d0 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -236,6 +236,9 @@ def uot_1d(
 
         u_weights_sorted = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights_sorted = nx.take_along_axis(v_weights, v_sorter, 0)
+    else:
+        u_values_sorted, v_values_sorted = u_values, v_values
+        u_weights_sorted, v_weights_sorted = u_weights, v_weights
 
     f = nx.zeros(u_weights.shape, type_as=u_weights)
     fd = nx.zeros(u_weights.shape, type_as=u_weights)
@@ -277,8 +280,10 @@ def uot_1d(
     if require_sort:
         f = nx.take_along_axis(f, u_rev_sorter, 0)
         g = nx.take_along_axis(g, v_rev_sorter, 0)
-        u_reweighted = nx.take_along_axis(u_rescaled, u_rev_sorter, 0) * full_mass
-        v_reweighted = nx.take_along_axis(v_rescaled, v_rev_sorter, 0) * full_mass
+        u_rescaled = nx.take_along_axis(u_rescaled, u_rev_sorter, 0)
+        v_rescaled = nx.take_along_axis(v_rescaled, v_rev_sorter, 0)
+    u_reweighted = u_rescaled * full_mass
+    v_reweighted = v_rescaled * full_mass
 
     # rescale OT loss
     linear_loss = loss * full_mass
-- 
2.43.0


From 04b97fbdf61b9f6fe5b725eb2c893f4733cd27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 035/134] fix: total cost of lbfgsb_unbalanced is the objective
 of the returned plan

---
 ot/unbalanced/_lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/unbalanced/_lbfgs.py b/ot/unbalanced/_lbfgs.py
index 9591b97..3c1d15b 100644
--- a/ot/unbalanced/_lbfgs.py
+++ b/ot/unbalanced/_lbfgs.py
@@ -330,7 +330,7 @@ def lbfgsb_unbalanced(
 
     if log:
         log = {"cost": nx.sum(G * M), "res": res}
-        log["total_cost"] = nx.from_numpy(res.fun, type_as=M0)
+        log["total_cost"] = nx.from_numpy(_func(res.x)[0], type_as=M0)
         return G, log
     else:
         return G
-- 
2.43.0


From f887313a92bb4407329dd28b020f2a356c847e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:23 +0000
Subject: [PATCH 036/134] fix: entropic_partial_wasserstein handles bins of
 zero weight

---
 ot/partial/partial_solvers.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 6c14d42..d937f43 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -612,6 +612,13 @@ def _entropic_partial_wasserstein_sinkhorn(
         K = nx.exp(-M / reg)
         K = K * m / nx.sum(K)
 
+    # entries of bins without mass are zero, and stay zero below (no 0 / 0)
+    zero_a, zero_b = nx.where(a == 0, dx, dx - 1), nx.where(b == 0, dy, dy - 1)
+    zero = nx.maximum(zero_a[:, None], zero_b[None, :])
+    if nx.any(zero > 0):
+        K = K * (1 - zero)
+        K = K * (m / nx.sum(K))
+
     err, cpt = 1, 0
     q1 = nx.ones(K.shape, type_as=K)
     q2 = nx.ones(K.shape, type_as=K)
@@ -620,16 +627,16 @@ def _entropic_partial_wasserstein_sinkhorn(
     while err > stopThr and cpt < numItermax:
         Kprev = K
         K = K * q1
-        K1 = nx.dot(nx.diag(nx.minimum(a / nx.sum(K, axis=1), dx)), K)
-        q1 = q1 * Kprev / K1
+        K1 = nx.dot(nx.diag(nx.minimum(a / (nx.sum(K, axis=1) + zero_a), dx)), K)
+        q1 = q1 * Kprev / (K1 + zero)
         K1prev = K1
         K1 = K1 * q2
-        K2 = nx.dot(K1, nx.diag(nx.minimum(b / nx.sum(K1, axis=0), dy)))
-        q2 = q2 * K1prev / K2
+        K2 = nx.dot(K1, nx.diag(nx.minimum(b / (nx.sum(K1, axis=0) + zero_b), dy)))
+        q2 = q2 * K1prev / (K2 + zero)
         K2prev = K2
         K2 = K2 * q3
         K = K2 * (m / nx.sum(K2))
-        q3 = q3 * K2prev / K
+        q3 = q3 * K2prev / (K + zero)
 
         if nx.any(nx.isnan(K)) or nx.any(nx.isinf(K)):
             print("Warning: numerical errors at iteration", cpt)
@@ -756,8 +763,12 @@ def entropic_partial_wasserstein_logscale(
     if len(b) == 0:
         b = nx.ones(dim_b, type_as=b) / dim_b
 
-    La = nx.log(a)
-    Lb = nx.log(b)
+    # bins without mass are left out (they keep a vanishing kernel), not log(0)
+    La = nx.log(nx.where(a == 0, Ldx + 1, a))
+    Lb = nx.log(nx.where(b == 0, Ldy + 1, b))
+    zero = nx.maximum(
+        nx.where(a == 0, Ldx + 1, Ldx)[:, None], nx.where(b == 0, Ldy + 1, Ldy)[None, :]
+    )
 
     if m is None:
         m = nx.min(nx.stack((nx.sum(a), nx.sum(b)))) * 1.0
@@ -771,7 +782,7 @@ def entropic_partial_wasserstein_logscale(
 
     log_e = {"err": []}
 
-    LK = -M / reg
+    LK = -M / reg - 1e30 * zero
     LK = LK + nx.log(m) - nx.logsumexp(LK)
 
     err, cpt = 1, 0
-- 
2.43.0


From 8112c314acc002d7954610447e2c17b981fd47b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 037/134] fix: potentials of emd_1d_dual_backprop are feasible
 when the two cdfs have common values

---
 ot/lp/solver_1d.py | 73 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 439e506..b0fd57e 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -58,6 +58,23 @@ def quantile_function(qs, cws, xs, return_index=False):
         return nx.take_along_axis(xs, idx, axis=0)
 
 
+def _staircase(nx, u_cdf, v_cdf):
+    r"""Number of atoms of each side completed when each entry of (u_cdf, v_cdf) is reached, u first on ties"""
+    if nx.__name__ == "torch":
+        u_cdf = u_cdf.movedim(0, -1).contiguous()
+        v_cdf = v_cdf.movedim(0, -1).contiguous()
+    else:
+        u_cdf, v_cdf = u_cdf.T, v_cdf.T
+    in_v = nx.searchsorted(v_cdf, u_cdf)
+    in_u = nx.searchsorted(u_cdf, v_cdf, side="right")
+    own_u = in_v * 0 + nx.arange(u_cdf.shape[-1], type_as=in_v)
+    own_v = in_u * 0 + nx.arange(v_cdf.shape[-1], type_as=in_u)
+    return (
+        nx.concatenate((own_u, in_u), -1).T,
+        nx.concatenate((in_v, own_v), -1).T,
+    )
+
+
 def wasserstein_1d(
     u_values,
     v_values,
@@ -149,13 +166,15 @@ def wasserstein_1d(
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
 
-    qs = nx.sort(nx.concatenate((u_cumweights, v_cumweights), 0), 0)
-    u_quantiles, idx_u = quantile_function(
-        qs, u_cumweights, u_values, return_index=True
-    )
-    v_quantiles, idx_v = quantile_function(
-        qs, v_cumweights, v_values, return_index=True
-    )
+    # merge the two cdfs; on ties the pairs still follow a monotone staircase (with
+    # null steps), so that gradients with respect to the weights are dual potentials
+    all_u, all_v = _staircase(nx, u_cumweights, v_cumweights)
+    merge = nx.argsort(all_u + all_v, 0)
+    qs = nx.take_along_axis(nx.concatenate((u_cumweights, v_cumweights), 0), merge, 0)
+    idx_u = nx.clip(nx.take_along_axis(all_u, merge, 0), 0, n - 1)
+    idx_v = nx.clip(nx.take_along_axis(all_v, merge, 0), 0, m - 1)
+    u_quantiles = nx.take_along_axis(u_values, idx_u, axis=0)
+    v_quantiles = nx.take_along_axis(v_values, idx_v, axis=0)
 
     qs = nx.zero_pad(qs, pad_width=[(1, 0)] + (qs.ndim - 1) * [(0, 0)])
     delta = qs[1:, ...] - qs[:-1, ...]
@@ -537,13 +556,24 @@ def emd_1d_dual_backprop(
         u_weights_diff.requires_grad_(True)
         v_weights_diff.requires_grad_(True)
 
-        cost_output = wasserstein_1d(
-            u_values,
-            v_values,
-            u_weights_diff,
-            v_weights_diff,
-            p=p,
-            require_sort=require_sort,
+        # both orders, so that ties of the cdfs are broken symmetrically
+        cost_output = 0.5 * (
+            wasserstein_1d(
+                u_values,
+                v_values,
+                u_weights_diff,
+                v_weights_diff,
+                p=p,
+                require_sort=require_sort,
+            )
+            + wasserstein_1d(
+                v_values,
+                u_values,
+                v_weights_diff,
+                u_weights_diff,
+                p=p,
+                require_sort=require_sort,
+            )
         )
         loss = cost_output.sum()
         loss.backward()
@@ -560,9 +590,18 @@ def emd_1d_dual_backprop(
         import jax
 
         def ot_1d(a, b):
-            return wasserstein_1d(
-                u_values, v_values, a, b, p=p, require_sort=require_sort
-            ).sum()
+            # both orders, so that ties of the cdfs are broken symmetrically
+            return (
+                0.5
+                * (
+                    wasserstein_1d(
+                        u_values, v_values, a, b, p=p, require_sort=require_sort
+                    )
+                    + wasserstein_1d(
+                        v_values, u_values, b, a, p=p, require_sort=require_sort
+                    )
+                ).sum()
+            )
 
         f, g = jax.grad(ot_1d, argnums=[0, 1])(u_weights, v_weights)
 
-- 
2.43.0


From 6f90dab9993804dc7985945f62be390fbc436df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 038/134] fix: lbfgsb_unbalanced with a KL divergence handles
 bins of zero weight

---
 ot/unbalanced/_lbfgs.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ot/unbalanced/_lbfgs.py b/ot/unbalanced/_lbfgs.py
index 3c1d15b..d2c8148 100644
--- a/ot/unbalanced/_lbfgs.py
+++ b/ot/unbalanced/_lbfgs.py
@@ -66,11 +66,15 @@ def _get_loss_unbalanced(a, b, c, M, reg, reg_m1, reg_m2, reg_div="kl", regm_div
     def grad_l2(G):
         return G - c
 
+    def log_ratio(p, q):
+        # entries of zero reference carry no mass (see the bounds of the solver)
+        return np.log(np.divide(p, q, out=np.ones_like(p), where=q > 0) + 1e-16)
+
     def reg_kl(G):
         return nx_numpy.kl_div(G, c, mass=True)
 
     def grad_kl(G):
-        return np.log(G / c + 1e-16)
+        return log_ratio(G, c)
 
     def reg_entropy(G):
         return np.sum(G * np.log(G + 1e-16)) - np.sum(G)
@@ -108,8 +112,8 @@ def _get_loss_unbalanced(a, b, c, M, reg, reg_m1, reg_m2, reg_div="kl", regm_div
 
     def grad_marg_kl(G):
         return reg_m1 * np.outer(
-            np.log(G.sum(1) / a + 1e-16), np.ones(n)
-        ) + reg_m2 * np.outer(np.ones(m), np.log(G.sum(0) / b + 1e-16))
+            log_ratio(G.sum(1), a), np.ones(n)
+        ) + reg_m2 * np.outer(np.ones(m), log_ratio(G.sum(0), b))
 
     def marg_tv(G):
         return reg_m1 * np.sum(np.abs(G.sum(1) - a)) + reg_m2 * np.sum(
@@ -316,12 +320,22 @@ def lbfgsb_unbalanced(
 
     _func = _get_loss_unbalanced(a, b, c, M, reg, reg_m1, reg_m2, reg_div, regm_div)
 
+    # a KL divergence is infinite when mass is put where its reference has none
+    upper = np.full(M.shape, np.inf)
+    if regm_div == "kl":
+        if reg_m1 > 0:
+            upper[a == 0, :] = 0
+        if reg_m2 > 0:
+            upper[:, b == 0] = 0
+    if reg_div == "kl" and reg > 0:
+        upper[c == 0] = 0
+
     res = minimize(
         _func,
         G0.ravel(),
         method=method,
         jac=True,
-        bounds=Bounds(0, np.inf),
+        bounds=Bounds(0, upper.ravel()),
         tol=stopThr,
         options=dict(maxiter=numItermax, disp=verbose),
     )
-- 
2.43.0


From db7379537777733aa4d6f0d0e524bc1d79df4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 039/134] fix: value of ot.solve with L2 regularization is the
 objective that is minimised

---
 ot/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 88cf5c7..129b86d 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -511,7 +511,7 @@ def solve(
                 )
 
                 value_linear = nx.sum(M * plan)
-                value = value_linear + reg * nx.sum(plan**2)
+                value = value_linear + reg / 2 * nx.sum(plan**2)
                 potentials = (log["alpha"], log["beta"])
 
             else:
-- 
2.43.0


From 22cd21f4c9656f469d1ed55745b9402d84517f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 040/134] fix: gradients of ot.solve(grad="last_step") go
 through one whole Sinkhorn iteration and the value

---
 ot/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 129b86d..acab719 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -464,8 +464,9 @@ def solve(
                     loga = nx.log(a0)
                     logb = nx.log(b0)
                     v = logb - nx.logsumexp(-M0 / reg + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(-M0 / reg + potentials[1][None, :], 1)
+                    u = loga - nx.logsumexp(-M0 / reg + v[None, :], 1)
                     plan = nx.exp(-M0 / reg + u[:, None] + v[None, :])
+                    M, a, b = M0, a0, b0
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
                     log["log_u"] = u
-- 
2.43.0


From fe5805184f0ef428ab12f6f5626647f18ecbf47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 041/134] fix: envelope gradients of ot.solve with KL
 regularization account for the reference measure

---
 ot/solvers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index acab719..034b56a 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -484,13 +484,16 @@ def solve(
                     )
 
                 if grad == "envelope":  # set the gradient at convergence
+                    grad_a, grad_b = potentials
+                    if reg_type.lower() == "kl":  # the reference depends on a and b
+                        grad_a, grad_b = grad_a - nx.log(a), grad_b - nx.log(b)
                     value = nx.set_gradients(
                         value,
                         (M0, a0, b0),
                         (
                             plan,
-                            reg * (potentials[0] - potentials[0].mean()),
-                            reg * (potentials[1] - potentials[1].mean()),
+                            reg * (grad_a - grad_a.mean()),
+                            reg * (grad_b - grad_b.mean()),
                         ),
                     )
 
-- 
2.43.0


From 36a020246f9553e805e7f416cda17a8ab163e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 042/134] fix: ot.solve uses the given reference measure for
 balanced problems

---
 ot/solvers.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 034b56a..6bcfeec 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -303,6 +303,7 @@ def solve(
         a = nx.ones(M.shape[0], type_as=M) / M.shape[0]
     if b is None:
         b = nx.ones(M.shape[1], type_as=M) / M.shape[1]
+    product_reference = c is None
     if c is None:
         c = a[:, None] * b[None, :]
 
@@ -446,10 +447,16 @@ def solve(
                         )
                     max_iter = max_iter - 1
 
+                # with a given reference, exp(-M / reg) * c is the Gibbs kernel
+                if reg_type.lower() == "kl" and not product_reference:
+                    M_ref = -reg * nx.log(c)
+                else:
+                    M_ref = 0
+
                 plan, log = sinkhorn_log(
                     a,
                     b,
-                    M,
+                    M + M_ref,
                     reg=reg,
                     numItermax=max_iter,
                     stopThr=tol,
@@ -463,9 +470,10 @@ def solve(
                 if grad == "last_step":
                     loga = nx.log(a0)
                     logb = nx.log(b0)
-                    v = logb - nx.logsumexp(-M0 / reg + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(-M0 / reg + v[None, :], 1)
-                    plan = nx.exp(-M0 / reg + u[:, None] + v[None, :])
+                    logK = -(M0 + M_ref) / reg
+                    v = logb - nx.logsumexp(logK + potentials[0][:, None], 0)
+                    u = loga - nx.logsumexp(logK + v[None, :], 1)
+                    plan = nx.exp(logK + u[:, None] + v[None, :])
                     M, a, b = M0, a0, b0
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
@@ -479,13 +487,16 @@ def solve(
                 if reg_type.lower() == "entropy":
                     value = value_linear + reg * nx.sum(plan * nx.log(plan + 1e-16))
                 else:
+                    if product_reference:
+                        c = a[:, None] * b[None, :]
                     value = value_linear + reg * nx.kl_div(
-                        plan, a[:, None] * b[None, :]
+                        plan, c, mass=not product_reference
                     )
 
                 if grad == "envelope":  # set the gradient at convergence
                     grad_a, grad_b = potentials
-                    if reg_type.lower() == "kl":  # the reference depends on a and b
+                    if reg_type.lower() == "kl" and product_reference:
+                        # the reference depends on a and b
                         grad_a, grad_b = grad_a - nx.log(a), grad_b - nx.log(b)
                     value = nx.set_gradients(
                         value,
@@ -503,10 +514,13 @@ def solve(
                 if tol is None:
                     tol = 1e-9
 
+                # half of the squared distance to the reference, if one is given
+                M_ref = 0 if product_reference else -reg * c
+
                 plan, log = smooth_ot_dual(
                     a,
                     b,
-                    M,
+                    M + M_ref,
                     reg=reg,
                     numItermax=max_iter,
                     stopThr=tol,
@@ -515,7 +529,10 @@ def solve(
                 )
 
                 value_linear = nx.sum(M * plan)
-                value = value_linear + reg / 2 * nx.sum(plan**2)
+                if product_reference:
+                    value = value_linear + reg / 2 * nx.sum(plan**2)
+                else:
+                    value = value_linear + reg / 2 * nx.sum((plan - c) ** 2)
                 potentials = (log["alpha"], log["beta"])
 
             else:
-- 
2.43.0


From e4d6dcc591c240db006f53ad1a3c0f9ce4368bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 043/134] fix: ot.solve passes potentials_init to the balanced
 Sinkhorn solver

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 6bcfeec..ae04296 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -462,6 +462,7 @@ def solve(
                     stopThr=tol,
                     log=True,
                     verbose=verbose,
+                    warmstart=potentials_init,
                 )
 
                 potentials = (log["log_u"], log["log_v"])
-- 
2.43.0


From a95b8a30bf554c53275b13bb142fa5afec0002e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 044/134] fix: ot.solve with infinite unbalanced penalties is
 the balanced problem

---
 ot/solvers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index ae04296..7bdbcf1 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -7,7 +7,7 @@ General OT solvers with unified API
 #
 # License: MIT License
 
-from .utils import OTResult, dist
+from .utils import OTResult, dist, get_parameter_pair
 from .lp import emd2, emd2_lazy, wasserstein_1d
 from .backend import get_backend
 from .unbalanced import mm_unbalanced, sinkhorn_knopp_unbalanced, lbfgsb_unbalanced
@@ -303,6 +303,11 @@ def solve(
         a = nx.ones(M.shape[0], type_as=M) / M.shape[0]
     if b is None:
         b = nx.ones(M.shape[1], type_as=M) / M.shape[1]
+    if unbalanced is not None:
+        reg_m1, reg_m2 = get_parameter_pair(unbalanced)
+        if reg_m1 == float("inf") and reg_m2 == float("inf"):
+            unbalanced = None  # infinite penalties: the marginals are constraints
+
     product_reference = c is None
     if c is None:
         c = a[:, None] * b[None, :]
-- 
2.43.0


From 3b7be36028c4eeb985f798b75491c82d5db748d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:01 +0000
Subject: [PATCH 045/134] fix: gaussian and factored methods of solve_sample
 use the sample weights

---
 ot/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 7bdbcf1..e124388 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1852,7 +1852,12 @@ def solve_sample(
                 reg = 1e-6
 
             value, log = empirical_bures_wasserstein_distance(
-                X_a, X_b, reg=reg, log=True
+                X_a,
+                X_b,
+                reg=reg,
+                ws=None if a is None else a[:, None],
+                wt=None if b is None else b[:, None],
+                log=True,
             )
             value = value**2  # return the value (squared bures distance)
             value_linear = value  # return the value
@@ -1873,8 +1878,11 @@ def solve_sample(
             Q, R, X, log = factored_optimal_transport(
                 X_a,
                 X_b,
+                a=a,
+                b=b,
                 reg=reg,
                 r=rank,
+                X0=X_init,
                 log=True,
                 stopThr=tol,
                 numItermax=max_iter,
-- 
2.43.0


From e63c2d118ce74d2219681d4f50a33fba258742fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:29 +0000
Subject: [PATCH 046/134] fix: linear value of lowrank_sinkhorn is the cost of
 the returned plan

---
 ot/lowrank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index f4e3aa4..3f1a6b0 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -506,8 +506,10 @@ def lowrank_sinkhorn(
     lazy_plan = get_lowrank_lazytensor(Q, R, 1 / g)
 
     # Compute value_linear (using trace formula)
+    if rescale_cost:  # the value is that of the original cost
+        M1, M2 = compute_lr_sqeuclidean_matrix(X_s, X_t, False, nx)
     A = nx.dot(M1.T, Q)
-    B = nx.dot(M2.T, R * diag_g)
+    B = nx.dot(M2.T, R / g[None, :])
     value_linear = nx.sum(A * B)
 
     # Compute value with entropy reg (see "Section 3.2" in the paper)
-- 
2.43.0


From c1cae2560a28b59e9973549b26bc03cbd8f320d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 047/134] fix: conditional gradient starts from a coupling when
 the weights do not sum to one

---
 ot/optim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index 35f819c..b2e7254 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -314,7 +314,7 @@ def generic_conditional_gradient(
         log = {"loss": []}
 
     if G0 is None:
-        G = nx.outer(a, b)
+        G = nx.outer(a, b) / nx.sum(a)
     else:
         # to not change G0 in place.
         G = nx.copy(G0)
-- 
2.43.0


From 2738da81c1c63f4a3753d7f41565ff70575c4a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 048/134] fix: mm_unbalanced with the L2 divergence can put
 mass on bins of zero weight

---
 ot/unbalanced/_mm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/unbalanced/_mm.py b/ot/unbalanced/_mm.py
index 8973752..fa1bda8 100644
--- a/ot/unbalanced/_mm.py
+++ b/ot/unbalanced/_mm.py
@@ -152,6 +152,8 @@ def mm_unbalanced(
     elif div == "l2":
         K = (reg_m1 * a[:, None]) + (reg_m2 * b[None, :]) + reg * c - M
         K = nx.maximum(K, nx.zeros((dim_a, dim_b), type_as=M))
+        if G0 is None:  # the multiplicative updates never leave zero
+            G = nx.where(G > 0, G, nx.mean(G))
     else:
         raise ValueError("Unknown div = {}. Must be either 'kl' or 'l2'".format(div))
 
-- 
2.43.0


From 566417dbfc3fca9e975fcb694997d49e941683a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 049/134] fix: maximum and minimum of a torch scalar and a
 number keep its shape

---
 ot/backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index c861b89..4cb940f 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2215,9 +2215,9 @@ class TorchBackend(Backend):
 
     def maximum(self, a, b):
         if isinstance(a, int) or isinstance(a, float):
-            a = torch.tensor([float(a)], dtype=b.dtype, device=b.device)
+            a = torch.tensor(float(a), dtype=b.dtype, device=b.device)
         if isinstance(b, int) or isinstance(b, float):
-            b = torch.tensor([float(b)], dtype=a.dtype, device=a.device)
+            b = torch.tensor(float(b), dtype=a.dtype, device=a.device)
         if hasattr(torch, "maximum"):
             return torch.maximum(a, b)
         else:
@@ -2225,9 +2225,9 @@ class TorchBackend(Backend):
 
     def minimum(self, a, b):
         if isinstance(a, int) or isinstance(a, float):
-            a = torch.tensor([float(a)], dtype=b.dtype, device=b.device)
+            a = torch.tensor(float(a), dtype=b.dtype, device=b.device)
         if isinstance(b, int) or isinstance(b, float):
-            b = torch.tensor([float(b)], dtype=a.dtype, device=a.device)
+            b = torch.tensor(float(b), dtype=a.dtype, device=a.device)
         if hasattr(torch, "minimum"):
             return torch.minimum(a, b)
         else:
-- 
2.43.0


From bb300391278aacc35fabf8865215af6bfa39ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 050/134] fix: regularization of the geomloss solver with the
 euclidean metric

---
 ot/bregman/_geomloss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index 73d8d5d..9b2e9d6 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -222,7 +222,7 @@ def empirical_sinkhorn2_geomloss(
         loss = SamplesLoss(
             loss="sinkhorn",
             p=p,
-            blur=blur,
+            blur=blur if p == 2 else reg,  # the regularization is blur**p
             backend=backend,
             debias=debias,
             scaling=scaling,
-- 
2.43.0


From 7ddf01020532a59520bd3abeab1d200f53c6185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 051/134] fix: the geomloss solver leaves its inputs unchanged
 and its value differentiable

---
 ot/bregman/_geomloss.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index 9b2e9d6..ce1672a 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -215,9 +215,11 @@ def empirical_sinkhorn2_geomloss(
         else:
             raise ValueError("geomloss only supports sqeuclidean and euclidean metrics")
 
-        # force gradients for computing dual
-        a_torch.requires_grad = True
-        b_torch.requires_grad = True
+        # force gradients for computing dual, without changing the user's tensors
+        if not a_torch.requires_grad:
+            a_torch = a_torch.clone().requires_grad_(True)
+        if not b_torch.requires_grad:
+            b_torch = b_torch.clone().requires_grad_(True)
 
         loss = SamplesLoss(
             loss="sinkhorn",
@@ -235,10 +237,10 @@ def empirical_sinkhorn2_geomloss(
         )  # linear + entropic/KL reg?
 
         # get dual potentials
-        f, g = grad(value, [a_torch, b_torch])
+        f, g = grad(value, [a_torch, b_torch], retain_graph=True)
 
         if metric == "sqeuclidean":
-            value *= 2  # because geomloss divides cost by two
+            value = value * 2  # because geomloss divides cost by two
 
         if nx.__name__ == "numpy":
             f = f.cpu().detach().numpy()
-- 
2.43.0


From d126d88e135a11d53c5c93c27f03038453a28bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 052/134] fix: fused GW barycenters stop when both errors are
 small, so that fixed parts do not stop them

---
 ot/gromov/_bregman.py     | 2 +-
 ot/gromov/_gw.py          | 2 +-
 ot/gromov/_semirelaxed.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 5b43a62..907e6f6 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2085,7 +2085,7 @@ def entropic_fused_gromov_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index 99d5bcf..f23c8a4 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1471,7 +1471,7 @@ def fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 02fafc8..6f1b2ca 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -2140,7 +2140,7 @@ def semirelaxed_fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
-- 
2.43.0


From 9607f8c395dc570dd02034926dbe904343a27d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 053/134] fix: loss of the GW barycenters weights each
 structure by its lambda

---
 ot/gromov/_bregman.py     | 8 ++++++--
 ot/gromov/_gw.py          | 8 ++++++--
 ot/gromov/_semirelaxed.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 907e6f6..aa6f20e 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -959,7 +959,9 @@ def entropic_gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["gw_dist"] for output in res])
+            curr_loss = np.sum(
+                [lambdas[s] * output[1]["gw_dist"] for s, output in enumerate(res)]
+            )
 
         # update barycenters
         C = update_barycenter_structure(
@@ -2052,7 +2054,9 @@ def entropic_fused_gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["fgw_dist"] for output in res])
+            curr_loss = np.sum(
+                [lambdas[s] * output[1]["fgw_dist"] for s, output in enumerate(res)]
+            )
 
         # update barycenters
         if not fixed_features:
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index f23c8a4..a4967f5 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1147,7 +1147,9 @@ def gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["gw_dist"] for output in res])
+            curr_loss = np.sum(
+                [lambdas[s] * output[1]["gw_dist"] for s, output in enumerate(res)]
+            )
 
         # update barycenters
         C = update_barycenter_structure(
@@ -1438,7 +1440,9 @@ def fgw_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["fgw_dist"] for output in res])
+            curr_loss = np.sum(
+                [lambdas[s] * output[1]["fgw_dist"] for s, output in enumerate(res)]
+            )
 
         # update barycenters
         if not fixed_features:
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 6f1b2ca..c440cc5 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1721,7 +1721,9 @@ def semirelaxed_gromov_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["srgw_dist"] for output in res])
+            curr_loss = np.sum(
+                [lambdas[s] * output[1]["srgw_dist"] for s, output in enumerate(res)]
+            )
 
         # update barycenters
         p = nx.concatenate([nx.sum(T[s], 0)[None, :] for s in range(S)], axis=0)
@@ -2111,7 +2113,9 @@ def semirelaxed_fgw_barycenters(
             T = res
         else:
             T = [output[0] for output in res]
-            curr_loss = np.sum([output[1]["srfgw_dist"] for output in res])
+            curr_loss = np.sum(
+                [lambdas[s] * output[1]["srfgw_dist"] for s, output in enumerate(res)]
+            )
 
         # update barycenters
         p = nx.concatenate([nx.sum(T[s], 0)[None, :] for s in range(S)], axis=0)
-- 
2.43.0


From 07432dfc228796e83cafcf444c05a12a5a06920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 054/134] fix: GW solvers start from a coupling when the
 weights do not sum to one

---
 ot/gromov/_gw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index a4967f5..bb03094 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -158,7 +158,7 @@ def gromov_wasserstein(
         )
 
     if G0 is None:
-        G0 = p[:, None] * q[None, :]
+        G0 = p[:, None] * q[None, :] / np.sum(p)
     else:
         G0 = nx.to_numpy(G0_)
         # Check marginals of G0
@@ -564,7 +564,7 @@ def fused_gromov_wasserstein(
         )
 
     if G0 is None:
-        G0 = p[:, None] * q[None, :]
+        G0 = p[:, None] * q[None, :] / np.sum(p)
     else:
         G0 = nx.to_numpy(G0_)
         # Check marginals of G0
-- 
2.43.0


From a53c2636663e286d20bc5b5c494287127ed5f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 055/134] fix: gradient of FGW with respect to alpha is defined
 for alpha=0

---
 ot/gromov/_gw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index bb03094..a8d6388 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -810,7 +810,6 @@ def fused_gromov_wasserstein2(
     lin_term = nx.sum(T * M)
     log_fgw["quad_loss"] = fgw_dist - (1 - alpha) * lin_term
     log_fgw["lin_loss"] = lin_term * (1 - alpha)
-    gw_term = log_fgw["quad_loss"] / alpha
 
     if loss_fun == "square_loss":
         gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
@@ -835,6 +834,8 @@ def fused_gromov_wasserstein2(
             ),
         )
     else:
+        constC, hC1, hC2 = init_matrix(C1, C2, p, q, loss_fun, nx)
+        gw_term = gwloss(constC, hC1, hC2, T, nx)
         fgw_dist = nx.set_gradients(
             fgw_dist,
             (p, q, C1, C2, M, alpha),
-- 
2.43.0


From ea9197c8ca19e2143a004e4772703d084a5d9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:55 +0000
Subject: [PATCH 056/134] fix: entropic semi-relaxed GW handles zero weights
 and large costs

---
 ot/gromov/_semirelaxed.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index c440cc5..bf9ad89 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -849,6 +849,20 @@ def solve_semirelaxed_gromov_linesearch(
     return alpha, 1, cost_G
 
 
+def _mirror_step(G, dG, p, epsilon, nx):
+    r"""Mirror descent step on plans with row marginal p.
+
+    Exponents are taken relative to the smallest gradient on the support of each
+    row, so that rows cannot underflow, and rows of zero weight stay at zero.
+    """
+    dG = nx.where(G > 0, dG, nx.max(dG))
+    dmin = nx.reshape(nx.min(dG, axis=1), (-1, 1))
+    K = G * nx.exp((dmin - dG) / epsilon)
+    sK = nx.sum(K, 1)
+    scaling = p / nx.where(sK > 0, sK, nx.ones(sK.shape, type_as=sK))
+    return nx.reshape(scaling, (-1, 1)) * K
+
+
 def entropic_semirelaxed_gromov_wasserstein(
     C1,
     C2,
@@ -1001,10 +1015,8 @@ def entropic_semirelaxed_gromov_wasserstein(
 
     while err > tol and cpt < max_iter:
         Gprev = G
-        # compute the kernel
-        K = G * nx.exp(-df(G) / epsilon)
-        scaling = p / nx.sum(K, 1)
-        G = nx.reshape(scaling, (-1, 1)) * K
+        # compute the kernel and its projection
+        G = _mirror_step(G, df(G), p, epsilon, nx)
         if cpt % 10 == 0:
             # we can speed up the process by checking for the error only all
             # the 10th iterations
@@ -1311,10 +1323,8 @@ def entropic_semirelaxed_fused_gromov_wasserstein(
 
     while err > tol and cpt < max_iter:
         Gprev = G
-        # compute the kernel
-        K = G * nx.exp(-df(G) / epsilon)
-        scaling = p / nx.sum(K, 1)
-        G = nx.reshape(scaling, (-1, 1)) * K
+        # compute the kernel and its projection
+        G = _mirror_step(G, df(G), p, epsilon, nx)
         if cpt % 10 == 0:
             # we can speed up the process by checking for the error only all
             # the 10th iterations
-- 
2.43.0


From 38ed64e3daba9a58934bec7941717d1bcdfe445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:18 +0000
Subject: [PATCH 057/134] fix: entropic partial FGW uses the gradient of the
 linear term

---
 ot/gromov/_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index afb76ef..9d40606 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -1622,7 +1622,7 @@ def entropic_partial_fused_gromov_wasserstein(
             constC2 = nx.outer(ones_p, nx.dot(qG, fC2t))
             return alpha * gwggrad(constC1 + constC2, hC1, hC2, G, nx) + (
                 1 - alpha
-            ) * nx.sum(G * M)
+            ) * M
     else:
 
         def df(G):
@@ -1636,7 +1636,7 @@ def entropic_partial_fused_gromov_wasserstein(
             return 0.5 * alpha * (
                 gwggrad(constC1 + constC2, hC1, hC2, G, nx)
                 + gwggrad(constC1t + constC2t, hC1t, hC2t, G, nx)
-            ) + (1 - alpha) * nx.sum(G * M)
+            ) + (1 - alpha) * M
 
     cpt = 0
     err = 1
-- 
2.43.0


From 5887775606e0752e1eabca41a5e01eede27c416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:18 +0000
Subject: [PATCH 058/134] fix: gradients of partial GW use the marginals of the
 partial plan

---
 ot/gromov/_partial.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 9d40606..71093a5 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -479,13 +479,15 @@ def partial_gromov_wasserstein2(
     pgw = log_pgw["partial_gw_dist"]
 
     if loss_fun == "square_loss":
-        gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
-        gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
+        pT, qT = nx.sum(T, 1), nx.sum(T, 0)
+        gC1 = 2 * C1 * nx.outer(pT, pT) - 2 * nx.dot(T, nx.dot(C2, T.T))
+        gC2 = 2 * C2 * nx.outer(qT, qT) - 2 * nx.dot(T.T, nx.dot(C1, T))
     elif loss_fun == "kl_loss":
-        gC1 = nx.log(C1 + 1e-15) * nx.outer(p, p) - nx.dot(
+        pT, qT = nx.sum(T, 1), nx.sum(T, 0)
+        gC1 = nx.log(C1 + 1e-15) * nx.outer(pT, pT) - nx.dot(
             T, nx.dot(nx.log(C2 + 1e-15), T.T)
         )
-        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(q, q)
+        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(qT, qT)
 
     pgw = nx.set_gradients(pgw, (C1, C2), (gC1, gC2))
 
@@ -961,13 +963,15 @@ def partial_fused_gromov_wasserstein2(
     pgw_term = log_pfgw["quad_loss"] / alpha
 
     if loss_fun == "square_loss":
-        gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
-        gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
+        pT, qT = nx.sum(T, 1), nx.sum(T, 0)
+        gC1 = 2 * C1 * nx.outer(pT, pT) - 2 * nx.dot(T, nx.dot(C2, T.T))
+        gC2 = 2 * C2 * nx.outer(qT, qT) - 2 * nx.dot(T.T, nx.dot(C1, T))
     elif loss_fun == "kl_loss":
-        gC1 = nx.log(C1 + 1e-15) * nx.outer(p, p) - nx.dot(
+        pT, qT = nx.sum(T, 1), nx.sum(T, 0)
+        gC1 = nx.log(C1 + 1e-15) * nx.outer(pT, pT) - nx.dot(
             T, nx.dot(nx.log(C2 + 1e-15), T.T)
         )
-        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(q, q)
+        gC2 = -nx.dot(T.T, nx.dot(C1, T)) / (C2 + 1e-15) + nx.outer(qT, qT)
 
     if isinstance(alpha, int) or isinstance(alpha, float):
         pfgw = nx.set_gradients(
-- 
2.43.0


From c3a7cde8ae046b3d21cb536f8ecc9d76321f3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:18 +0000
Subject: [PATCH 059/134] fix: partial GW accepts an initial plan that
 saturates the weights up to rounding

---
 ot/gromov/_partial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 71093a5..3b5a755 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -200,8 +200,8 @@ def partial_gromov_wasserstein(
     else:
         G0 = nx.to_numpy(G0_)
         # Check marginals of G0
-        assert np.all(G0.sum(1) <= p)
-        assert np.all(G0.sum(0) <= q)
+        assert np.all(G0.sum(1) <= p + 1e-8)
+        assert np.all(G0.sum(0) <= q + 1e-8)
 
     q_extended = np.append(q, [(np.sum(p) - m) / nb_dummies] * nb_dummies)
     p_extended = np.append(p, [(np.sum(q) - m) / nb_dummies] * nb_dummies)
@@ -672,8 +672,8 @@ def partial_fused_gromov_wasserstein(
     else:
         G0 = nx.to_numpy(G0_)
         # Check marginals of G0
-        assert np.all(G0.sum(1) <= p)
-        assert np.all(G0.sum(0) <= q)
+        assert np.all(G0.sum(1) <= p + 1e-8)
+        assert np.all(G0.sum(0) <= q + 1e-8)
 
     q_extended = np.append(q, [(np.sum(p) - m) / nb_dummies] * nb_dummies)
     p_extended = np.append(p, [(np.sum(q) - m) / nb_dummies] * nb_dummies)
-- 
2.43.0


From a4a43c82a477027a713dc15732dbe456524b48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:18 +0000
Subject: [PATCH 060/134] fix: partial conditional gradient transports the
 requested mass for all gradients

---
 ot/optim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index b2e7254..48e478f 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -769,7 +769,8 @@ def partial_cg(
         # add dummy nodes to Mi
         Mi_extended = np.zeros((n_extended, m_extended), dtype=Mi.dtype)
         Mi_extended[:n, :m] = Mi
-        Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(M) * 1e2
+        # mass on the dummy-dummy block must never pay off, also for costs <= 0
+        Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(np.abs(Mi)) * 2 + 1
 
         G_extended, log_ = emd(
             a_extended, b_extended, Mi_extended, numItermax, log=True
-- 
2.43.0


From dbede0710db346098327dbb97b52298dbd91a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 061/134] fix: iteration budget of partial GW does not limit
 its linear solver

---
 ot/gromov/_partial.py | 2 ++
 ot/optim.py           | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 3b5a755..880da14 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -300,6 +300,7 @@ def partial_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
@@ -780,6 +781,7 @@ def partial_fused_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
diff --git a/ot/optim.py b/ot/optim.py
index 48e478f..eb71c7c 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -683,6 +683,7 @@ def partial_cg(
     warn=True,
     verbose=False,
     log=False,
+    numItermaxEmd=100000,
     **kwargs,
 ):
     r"""
@@ -742,6 +743,8 @@ def partial_cg(
         Print information along iterations
     log : bool, optional
         record log if True
+    numItermaxEmd : int, optional
+        Max number of iterations for emd
     **kwargs : dict
              Parameters for linesearch
 
@@ -773,7 +776,7 @@ def partial_cg(
         Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(np.abs(Mi)) * 2 + 1
 
         G_extended, log_ = emd(
-            a_extended, b_extended, Mi_extended, numItermax, log=True
+            a_extended, b_extended, Mi_extended, numItermaxEmd, log=True
         )
         Gc = G_extended[:n, :m]
 
-- 
2.43.0


From 46c6916955ff6c0056a44341f8a0822070df2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 062/134] fix: gradients of partial and semi-relaxed FGW with
 respect to alpha are defined for alpha=0

---
 ot/gromov/_partial.py     | 5 +++--
 ot/gromov/_semirelaxed.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 880da14..94f1bc1 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -12,7 +12,7 @@ Partial (Fused) Gromov-Wasserstein solvers.
 from ..utils import list_to_array, unif
 from ..backend import get_backend, NumpyBackend
 from ..partial import entropic_partial_wasserstein
-from ._utils import _transform_matrix, gwloss, gwggrad
+from ._utils import _transform_matrix, init_matrix, gwloss, gwggrad
 from ..optim import partial_cg, solve_1d_linesearch_quad
 
 import numpy as np
@@ -962,7 +962,6 @@ def partial_fused_gromov_wasserstein2(
     lin_term = nx.sum(T * M)
     log_pfgw["quad_loss"] = pfgw - (1 - alpha) * lin_term
     log_pfgw["lin_loss"] = lin_term * (1 - alpha)
-    pgw_term = log_pfgw["quad_loss"] / alpha
 
     if loss_fun == "square_loss":
         pT, qT = nx.sum(T, 1), nx.sum(T, 0)
@@ -980,6 +979,8 @@ def partial_fused_gromov_wasserstein2(
             pfgw, (M, C1, C2), ((1 - alpha) * T, alpha * gC1, alpha * gC2)
         )
     else:
+        constC, hC1, hC2 = init_matrix(C1, C2, pT, qT, loss_fun, nx)
+        pgw_term = gwloss(constC, hC1, hC2, T, nx)
         pfgw = nx.set_gradients(
             pfgw,
             (M, C1, C2, alpha),
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index bf9ad89..cf77613 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -16,6 +16,7 @@ from ..optim import semirelaxed_cg, solve_1d_linesearch_quad
 from ..backend import get_backend
 
 from ._utils import (
+    init_matrix,
     init_matrix_semirelaxed,
     gwloss,
     gwggrad,
@@ -739,7 +740,8 @@ def semirelaxed_fused_gromov_wasserstein2(
         )
     else:
         lin_term = nx.sum(T * M)
-        srgw_term = (srfgw_dist - (1 - alpha) * lin_term) / alpha
+        constC, hC1, hC2 = init_matrix(C1, C2, p, q, loss_fun, nx)
+        srgw_term = gwloss(constC, hC1, hC2, T, nx)
         srfgw_dist = nx.set_gradients(
             srfgw_dist,
             (C1, C2, M, alpha),
-- 
2.43.0


From c5e4321bc528df7bc21212a19ddac852bf39c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 063/134] fix: semi-relaxed FGW barycenters initialise the
 features with the KL loss

---
 ot/gromov/_semirelaxed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index cf77613..1700de9 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1967,7 +1967,7 @@ def semirelaxed_fgw_barycenters(
             C = init_C
 
         if init_X is None:
-            X = update_barycenter_feature(T, Ys, lambdas, loss_fun=loss_fun, nx=nx)
+            X = update_barycenter_feature(T, Ys, lambdas, nx=nx)
         else:
             X = init_X
 
-- 
2.43.0


From a04f3aff3e73f86b063c0ca463d4672187d60e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 064/134] fix: random initialisations of semi-relaxed GW leave
 the global generator alone

---
 ot/gromov/_semirelaxed.py | 16 +++++++++++-----
 ot/gromov/_utils.py       | 10 +++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 1700de9..4dc7469 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -11,7 +11,13 @@ Semi-relaxed Gromov-Wasserstein and Fused-Gromov-Wasserstein solvers.
 import numpy as np
 
 
-from ..utils import list_to_array, unif, dist, UndefinedParameter
+from ..utils import (
+    list_to_array,
+    unif,
+    dist,
+    UndefinedParameter,
+    check_random_state,
+)
 from ..optim import semirelaxed_cg, solve_1d_linesearch_quad
 from ..backend import get_backend
 
@@ -1612,8 +1618,8 @@ def semirelaxed_gromov_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = check_random_state(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
@@ -1943,8 +1949,8 @@ def semirelaxed_fgw_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = check_random_state(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 4ae23d4..bfa90c4 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -12,7 +12,7 @@ Gromov-Wasserstein and Fused-Gromov-Wasserstein utils.
 #
 # License: MIT License
 
-from ..utils import list_to_array, euclidean_distances
+from ..utils import list_to_array, euclidean_distances, check_random_state
 from ..backend import get_backend
 from ..lp import emd
 
@@ -605,15 +605,15 @@ def semirelaxed_init_plan(
         T = nx.outer(p, q)
 
     elif method == "random_product":
-        np.random.seed(random_state)
-        q = np.random.uniform(0, m, size=(m,))
+        rng = check_random_state(random_state)
+        q = rng.uniform(0, m, size=(m,))
         q = q / q.sum()
         q = nx.from_numpy(q, type_as=p)
         T = nx.outer(p, q)
 
     elif method == "random":
-        np.random.seed(random_state)
-        U = np.random.uniform(0, n * m, size=(n, m))
+        rng = check_random_state(random_state)
+        U = rng.uniform(0, n * m, size=(n, m))
         U = (p / U.sum(1))[:, None] * U
         T = nx.from_numpy(U, type_as=C1)
 
-- 
2.43.0


From dec26260890426f8370789565410ce84ed5d9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 065/134] fix: solve_gromov passes the regularization to the
 entropic fused solvers

---
 ot/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index e124388..8b6c477 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1207,6 +1207,7 @@ def solve_gromov(
                     a,
                     b,
                     loss_fun=loss_fun,
+                    epsilon=reg,
                     alpha=alpha,
                     log=True,
                     symmetric=symmetric,
@@ -1272,6 +1273,7 @@ def solve_gromov(
                     Cb,
                     a,
                     loss_fun=loss_fun,
+                    epsilon=reg,
                     alpha=alpha,
                     log=True,
                     symmetric=symmetric,
-- 
2.43.0


From d2cddd1b55a0873e65983dce0b95501ed09a04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 066/134] fix: solve_gromov passes the tolerance to the
 entropic solvers

---
 ot/solvers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 8b6c477..ae3f187 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1155,8 +1155,7 @@ def solve_gromov(
                     solver=method,
                     max_iter=max_iter,
                     G0=plan_init,
-                    tol_rel=tol,
-                    tol_abs=tol,
+                    tol=tol,
                     verbose=verbose,
                 )
 
@@ -1214,8 +1213,7 @@ def solve_gromov(
                     solver=method,
                     max_iter=max_iter,
                     G0=plan_init,
-                    tol_rel=tol,
-                    tol_abs=tol,
+                    tol=tol,
                     verbose=verbose,
                 )
 
-- 
2.43.0


From 56d5a888814aeda46a3bcf3a32fd9bc0fb0e0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 067/134] fix: entropic GW warm starts with the log-scalings
 that sinkhorn expects

---
 ot/gromov/_bregman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index aa6f20e..923f1f5 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -220,8 +220,8 @@ def entropic_gromov_wasserstein(
                 warmstart=(mu, nu),
                 **kwargs,
             )
-            mu = epsilon * nx.log(loginn["u"])
-            nu = epsilon * nx.log(loginn["v"])
+            mu = nx.log(loginn["u"])
+            nu = nx.log(loginn["v"])
 
         else:
             T = sinkhorn(p, q, tens, epsilon, method="sinkhorn", **kwargs)
@@ -1208,8 +1208,8 @@ def entropic_fused_gromov_wasserstein(
                 warmstart=(mu, nu),
                 **kwargs,
             )
-            mu = epsilon * nx.log(loginn["u"])
-            nu = epsilon * nx.log(loginn["v"])
+            mu = nx.log(loginn["u"])
+            nu = nx.log(loginn["v"])
 
         else:
             T = sinkhorn(p, q, tens, epsilon, method="sinkhorn", **kwargs)
-- 
2.43.0


From ab1b9386860563d67774b8a8d2ed2b239891539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 068/134] fix: entropic GW warns about the mass of the plan for
 the given weights

---
 ot/gromov/_bregman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 923f1f5..08b3708 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -241,7 +241,7 @@ def entropic_gromov_wasserstein(
 
         cpt += 1
 
-    if abs(nx.sum(T) - 1) > 1e-5:
+    if abs(nx.sum(T) - nx.sum(p)) > 1e-5:
         warnings.warn(
             "Solver failed to produce a transport plan. You might "
             "want to increase the regularization parameter `epsilon`."
@@ -1229,7 +1229,7 @@ def entropic_fused_gromov_wasserstein(
 
         cpt += 1
 
-    if abs(nx.sum(T) - 1) > 1e-5:
+    if abs(nx.sum(T) - nx.sum(p)) > 1e-5:
         warnings.warn(
             "Solver failed to produce a transport plan. You might "
             "want to increase the regularization parameter `epsilon`."
-- 
2.43.0


From 95ba603952789d0afdf253fcf26bcc785d760619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 069/134] fix: entropic fused GW barycenters return the updated
 features

---
 ot/gromov/_bregman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 08b3708..a86f917 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2060,11 +2060,11 @@ def entropic_fused_gromov_barycenters(
 
         # update barycenters
         if not fixed_features:
-            X = update_barycenter_feature(
+            Y = update_barycenter_feature(
                 T, Ys, lambdas, p, target=False, check_zeros=False, nx=nx
             )
 
-            Ms = [dist(X, Ys[s]) for s in range(len(Ys))]
+            Ms = [dist(Y, Ys[s]) for s in range(len(Ys))]
 
         if not fixed_structure:
             C = update_barycenter_structure(
-- 
2.43.0


From b3e358a854dcb7893c2377fad2da0ac536d683f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 070/134] fix: Sinkhorn barycenter starts from scalings that
 respect its weights

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 89732f9..d89ec11 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -226,7 +226,7 @@ def barycenter_sinkhorn(
 
     UKv = nx.dot(K, (A.T / nx.sum(K, axis=0)).T)
 
-    u = (geometricMean(UKv) / UKv.T).T
+    u = (geometricBar(weights, UKv) / UKv.T).T
 
     for ii in range(numItermax):
         UKv = u * nx.dot(K.T, A / nx.dot(K, u))
-- 
2.43.0


From 609c908567ddf3da27b47a9507a22ea08f0767d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 071/134] fix: stabilized Sinkhorn barycenter does not depend
 on the absorption of the scalings

---
 ot/bregman/_barycenter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index d89ec11..67061b6 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -574,7 +574,8 @@ def barycenter_stabilized(
         Kv = nx.dot(K, v)
         u = A / Kv
         Ktu = nx.dot(K.T, u)
-        q = geometricBar(weights, Ktu)
+        # the scalings absorbed in K are not part of the constraint on v
+        q = nx.exp(nx.dot(nx.log(Ktu), weights) - beta / reg)
         Q = q[:, None]
         v = Q / Ktu
         absorbing = False
-- 
2.43.0


From b942fdcbf1bfdc27e38f6b7593eaf323f237beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 072/134] fix: generalized free support barycenter uses its
 weights and initialization

---
 ot/lp/_barycenter_solvers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index e37fbec..9cdfc7d 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -394,7 +394,9 @@ def generalized_free_support_barycenter(
     ]  # change of variables -> (WB) problem on Z
 
     if Y_init is None:
-        Y_init = nx.randn(n_samples_bary, d, type_as=X_list[0])
+        Z_init = nx.randn(n_samples_bary, d, type_as=X_list[0])
+    else:
+        Z_init = Y_init @ nx.sqrtm(A).T
 
     if b is None:
         b = nx.ones(n_samples_bary, type_as=X_list[0]) / n_samples_bary  # not optimized
@@ -402,8 +404,9 @@ def generalized_free_support_barycenter(
     out = free_support_barycenter(
         Z_list,
         a_list,
-        Y_init,
+        Z_init,
         b,
+        weights=weights,
         numItermax=numItermax,
         stopThr=stopThr,
         verbose=verbose,
-- 
2.43.0


From b70e5d77ec7e499f32e0c84568ae484555cb6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 073/134] fix: jcpot_barycenter leaves the labels it is given
 unchanged

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 67061b6..e59b009 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -987,7 +987,7 @@ def jcpot_barycenter(
 
         # format classes to start from 0 for convenience
         if nx.min(classes) != 0:
-            Ys[d] -= nx.min(classes)
+            Ys[d] = Ys[d] - nx.min(classes)
             classes = nx.unique(Ys[d])
 
         # build the corresponding D_1 and D_2 matrices
-- 
2.43.0


From 09126c42068715a793c1b075df4e23ce97eccb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 074/134] fix: jcpot_barycenter accepts a single source domain

---
 ot/bregman/_barycenter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index e59b009..aa0d92e 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -960,8 +960,8 @@ def jcpot_barycenter(
         International Conference on Artificial Intelligence and Statistics (AISTATS), 2019.
     """
 
-    Xs = list_to_array(*Xs)
-    Ys = list_to_array(*Ys)
+    Xs = [list_to_array(X) for X in Xs]
+    Ys = [list_to_array(Y) for Y in Ys]
     Xt = list_to_array(Xt)
 
     nx = get_backend(*Xs, *Ys, Xt)
-- 
2.43.0


From 1526feb705bc280ff5db581b4b16da3283e7cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 075/134] fix: JCPOTTransport uses its max_iter and stores the
 proportions

---
 ot/da.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 527999c..b6f31b0 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2417,7 +2417,7 @@ class JCPOTTransport(BaseTransport):
                 Xt=Xt,
                 reg=self.reg_e,
                 metric=self.metric,
-                distrinumItermax=self.max_iter,
+                numItermax=self.max_iter,
                 stopThr=self.tol,
                 verbose=self.verbose,
                 log=True,
@@ -2429,7 +2429,7 @@ class JCPOTTransport(BaseTransport):
             if self.log:
                 self.proportions_, self.log_ = returned_
             else:
-                self.proportions_ = returned_
+                self.proportions_ = returned_[0]
                 self.log_ = dict()
 
         return self
-- 
2.43.0


From a78764e153b95d1b2d751c5148f11b844319f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 076/134] fix: debiased convolutional barycenter of images with
 a single row or column

---
 ot/bregman/_convolutional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_convolutional.py b/ot/bregman/_convolutional.py
index 9a82532..3945ec5 100644
--- a/ot/bregman/_convolutional.py
+++ b/ot/bregman/_convolutional.py
@@ -443,7 +443,7 @@ def _convolutional_barycenter2d_debiased(
         bar = c * nx.exp(nx.sum(weights[:, None, None] * nx.log(KU + stabThr), axis=0))
 
         for _ in range(10):
-            c = (c * bar / nx.squeeze(convol_imgs(c[None]))) ** 0.5
+            c = (c * bar / convol_imgs(c[None])[0]) ** 0.5
 
         if ii % 10 == 9:
             err = nx.sum(nx.std(V * KU, axis=0))
-- 
2.43.0


From 9461422e856456fd0c54c178a0c13818a1865a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 077/134] fix: KL value of solve_batch with empty bins is not
 NaN

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index a63fcb4..6d44eaf 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -341,7 +341,7 @@ def solve_batch(
         value = value_linear + reg * entr
     elif reg_type.lower() == "kl":
         ref = nx.einsum("bi,bj->bij", a, b)
-        kl = nx.sum(T * nx.log(T / ref + 1e-16), axis=(1, 2))
+        kl = nx.sum(T * nx.log(T / (ref + 1e-16) + 1e-16), axis=(1, 2))
         value = value_linear + reg * kl
     log = {"n_iter": out["n_iters"]}
 
-- 
2.43.0


From 973da52831d3743eef140b28a04e3e21626309f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 078/134] fix: batched euclidean distances of equal points are
 not NaN

---
 ot/batch/_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 6d44eaf..dbd35ff 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -80,6 +80,7 @@ def dist_euclidean_batch(X, Y, squared=True, nx=None):
     YY = nx.sum(Y**2, axis=-1, keepdims=True)
     YY = nx.transpose(YY, axes=(0, 2, 1))
     M = XX + YY - 2 * nx.einsum("bid,bjd->bij", X, Y)
+    M = nx.maximum(M, 0)
     if not squared:
         M = nx.sqrt(M)
     return M
-- 
2.43.0


From e1036743b8499a3b9af7e777b69c6aa070329225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 079/134] fix: dist_kl_batch sums over the features with logits

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index dbd35ff..7921f43 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -113,7 +113,7 @@ def dist_kl_batch(X, Y, logits_X=False, nx=None, eps=1e-10):
         nx = get_backend(X, Y)
     entr_y = nx.sum(Y * nx.log(Y + eps), axis=-1)  # B x m
     if logits_X:
-        M = entr_y[:, None, :] - Y[:, None, :] * X[:, :, None]
+        M = entr_y[:, None, :] - nx.sum(Y[:, None, :] * X[:, :, None], axis=-1)
     else:
         M = entr_y[:, None, :] - nx.sum(
             Y[:, None, :] * nx.log(X + eps)[:, :, None], axis=-1
-- 
2.43.0


From 9d90f4bf0c0ec6743618ae007006fed39417e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 080/134] fix: batched Bregman projections keep the type of
 their input

---
 ot/batch/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index ce5db46..71b0456 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -126,17 +126,17 @@ def bregman_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
         K_, K = K.clone(), nx.detach(K)
 
-    f = nx.ones((B, n))  # a / nx.sum(K, axis=2)
-    g = nx.ones((B, m))  # b / nx.sum(K, axis=1)
+    f = nx.ones((B, n), type_as=K)  # a / nx.sum(K, axis=2)
+    g = nx.ones((B, m), type_as=K)  # b / nx.sum(K, axis=1)
 
     for n_iters in range(max_iter):
         f = a / nx.sum(K * g[:, None, :], axis=2)
@@ -250,9 +250,9 @@ def bregman_log_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     u = nx.zeros((B, n), type_as=K)  # u = nx.log(a) - nx.logsumexp(K, axis=2).squeeze()
     v = nx.zeros((B, m), type_as=K)  # v = nx.log(b) - nx.logsumexp(K, axis=1).squeeze()
-- 
2.43.0


From 92425ccf206ff4175bb7bc4b8fe73182c3b47ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 081/134] fix: document the order of the arguments of the
 batched KL loss

---
 ot/batch/_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_quadratic.py b/ot/batch/_quadratic.py
index 0da4b89..59c267d 100644
--- a/ot/batch/_quadratic.py
+++ b/ot/batch/_quadratic.py
@@ -76,7 +76,7 @@ def tensor_batch(
     **KL divergence**:
 
     .. math::
-        \ell(a, b) = \sum_i a_i \log\left(\frac{a_i}{b_i}\right)
+        \ell(a, b) = \sum_i b_i \log\left(\frac{b_i}{a_i}\right)
 
     If ``logits=True``, the entries of C1 are treated as logits (unnormalized log probabilities)
     and the loss becomes:
-- 
2.43.0


From a286e3b7f2e1aeb9f7c96c0d302623fe96fd66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 082/134] fix: dist_lp_batch works with the tensorflow backend

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 7921f43..9084639 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -45,7 +45,7 @@ def dist_lp_batch(X, Y, p=2, q=1, nx=None):
     if nx is None:
         nx = get_backend(X, Y)
     M = nx.abs(X[:, :, None] - Y[:, None, :]) ** p
-    M = M.sum(axis=-1)
+    M = nx.sum(M, axis=-1)
     if q != p:
         M = M ** (q / p)
     return M
-- 
2.43.0


From c0b25e9fbbf508512598e03da963a7bf7ead4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 083/134] fix: gradients set with the tensorflow backend follow
 the chain rule

---
 ot/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index 4cb940f..3cb5783 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3137,7 +3137,7 @@ class TensorflowBackend(Backend):
         @tf.custom_gradient
         def tmp(input):
             def grad(upstream):
-                return grads
+                return tuple(upstream * g for g in grads)
 
             return val, grad
 
-- 
2.43.0


From 4f1cc615aef2bcb93c31d8d4c1d044d6ebe541c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 084/134] fix: gradients set with the jax backend are the given
 ones

---
 ot/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 3cb5783..367f0ad 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1665,9 +1665,9 @@ class JaxBackend(Backend):
         (val,) = jax.lax.stop_gradient((val,))
 
         ravelled_inputs, _ = ravel_pytree(inputs)
-        ravelled_grads, _ = ravel_pytree(grads)
+        ravelled_grads, _ = ravel_pytree(jax.lax.stop_gradient(grads))
 
-        aux = jnp.sum(ravelled_inputs * ravelled_grads) / 2
+        aux = jnp.sum(ravelled_inputs * ravelled_grads)
         aux = aux - jax.lax.stop_gradient(aux)
 
         (val,) = jax.tree_util.tree_map(lambda z: z + aux, (val,))
-- 
2.43.0


From c8a65cca00d984c5d347d1545d348ead8b6795a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 085/134] fix: keepdims of torch reductions over all axes

---
 ot/backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 367f0ad..3cea41b 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2191,7 +2191,8 @@ class TorchBackend(Backend):
 
     def sum(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.sum(a)
+            res = torch.sum(a)
+            return torch.reshape(res, (1,) * a.ndim) if keepdims else res
         else:
             return torch.sum(a, axis, keepdim=keepdims)
 
@@ -2203,13 +2204,15 @@ class TorchBackend(Backend):
 
     def max(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.max(a)
+            res = torch.max(a)
+            return torch.reshape(res, (1,) * a.ndim) if keepdims else res
         else:
             return torch.max(a, axis, keepdim=keepdims)[0]
 
     def min(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.min(a)
+            res = torch.min(a)
+            return torch.reshape(res, (1,) * a.ndim) if keepdims else res
         else:
             return torch.min(a, axis, keepdim=keepdims)[0]
 
-- 
2.43.0


From fe75f4b344ce8d6968ca49ad7fcb2e8efc29af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 086/134] fix: keepdims of logsumexp with the tensorflow
 backend

---
 ot/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 3cea41b..27b89dc 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3326,8 +3326,8 @@ class TensorflowBackend(Backend):
         else:
             return y_prime
 
-    def logsumexp(self, a, axis=None):
-        return tf.math.reduce_logsumexp(a, axis=axis)
+    def logsumexp(self, a, axis=None, keepdims=False):
+        return tf.math.reduce_logsumexp(a, axis=axis, keepdims=keepdims)
 
     def stack(self, arrays, axis=0):
         return tnp.stack(arrays, axis)
-- 
2.43.0


From b0d41f36fa657451cd47e4e83edc20a223c4f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 087/134] fix: eliminate_zeros with a threshold on torch sparse
 tensors

---
 ot/backend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 27b89dc..dd2c539 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2478,9 +2478,7 @@ class TorchBackend(Backend):
     def eliminate_zeros(self, a, threshold=0.0):
         if self.issparse(a):
             if threshold > 0:
-                mask = self.abs(a) <= threshold
-                mask = ~mask
-                mask = mask.nonzero()
+                mask = (self.abs(a._values()) > threshold).nonzero()
             else:
                 mask = a._values().nonzero()
             nv = a._values().index_select(0, mask.view(-1))
-- 
2.43.0


From 3d4cbc377c3803515dc669c4fb829df0e462441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 088/134] fix: linspace of the tensorflow backend has the type
 of type_as

---
 ot/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index dd2c539..6052d43 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3306,7 +3306,7 @@ class TensorflowBackend(Backend):
         if type_as is None:
             return tnp.linspace(start, stop, num)
         else:
-            return tnp.linspace(start, stop, num, dtype=type_as.dtype)
+            return tf.cast(tnp.linspace(start, stop, num), dtype=type_as.dtype)
 
     def meshgrid(self, a, b):
         return tnp.meshgrid(a, b)
-- 
2.43.0


From d8eec48510e436cfdbc43eaaab662586aa7c2707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 089/134] fix: screenkhorn without restricted initialization,
 or with ties selecting all points

---
 ot/bregman/_screenkhorn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index b562c01..86071ac 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -320,16 +320,16 @@ def screenkhorn(
             nx.ones((ns - ns_budget,), type_as=M)[:, None] * K_IcJ, axis=0
         )
 
+        # pre-calculated constants for Restricted Sinkhorn
+        cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
+        cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
+
     # initialisation
     u0 = nx.full((ns_budget,), 1.0 / ns_budget + epsilon / kappa, type_as=M)
     v0 = nx.full((nt_budget,), 1.0 / nt_budget + epsilon * kappa, type_as=M)
 
     # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
     if restricted:
-        if ns_budget != ns or nt_budget != nt:
-            cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
-            cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
-
         for _ in range(5):  # 5 iterations
             K_IJ_v = nx.dot(K_IJ.T, u0) + cst_v
             v0 = b_J / (kappa * K_IJ_v)
-- 
2.43.0


From 6215dcf0eadd396f8f72f617896382795849a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 090/134] fix: cost_normalization does not modify its argument

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 4f67167..e9cef2a 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -581,11 +581,11 @@ def cost_normalization(C, norm=None, return_value=False, value=None):
     elif norm == "median":
         if value is None:
             value = nx.median(C)
-        C /= value
+        C = C / value
     elif norm == "max":
         if value is None:
             value = nx.max(C)
-        C /= float(value)
+        C = C / float(value)
     elif norm == "log":
         C = nx.log(1 + C)
     elif norm == "loglog":
-- 
2.43.0


From 8edb1efe21f0dc1d90699bcc95fe644f3cc08d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 091/134] fix: no debug print in projection_sparse_simplex

---
 ot/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index e9cef2a..97cbcf9 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -208,7 +208,6 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
 
         row_indices = nx.arange(V.shape[0])
         row_indices = row_indices.reshape(-1, 1)
-        print(row_indices.shape)
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-- 
2.43.0


From dd2dcacdddd9996878add1139749d1fae81ef1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 092/134] fix: deterministic initialization of lowrank_sinkhorn
 has the type of the data

---
 ot/lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index 3f1a6b0..ba22097 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -89,7 +89,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
 
     if init == "deterministic":
         # Init g
-        g = nx.ones(rank) / rank
+        g = nx.ones(rank, type_as=X_s) / rank
 
         lambda_1 = min(nx.min(a), nx.min(g), nx.min(b)) / 2
         a1 = nx.arange(start=1, stop=ns + 1, type_as=X_s)
-- 
2.43.0


From 1a6d7c375f42feeb8933fe161f0ab6e3aab1dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 093/134] fix: gradients of emd2 with several target histograms

---
 ot/lp/_network_simplex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index 4dc82ce..b25dda0 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -735,7 +735,7 @@ def emd2(
     # ============================================================================
     # DEFINE SOLVER FUNCTION
     # ============================================================================
-    def f(b):
+    def f(b, b0):
         bsel = b != 0
 
         if is_sparse:
@@ -877,7 +877,7 @@ def emd2(
             return cost
 
     if len(b.shape) == 1:
-        return f(b)
+        return f(b, b0)
     nb = b.shape[1]
 
     if processes > 1:
@@ -885,7 +885,7 @@ def emd2(
             "The 'processes' parameter has been deprecated. "
             "Multiprocessing should be done outside of POT."
         )
-    res = list(map(f, [b[:, i].copy() for i in range(nb)]))
+    res = [f(b[:, i].copy(), b0[:, i]) for i in range(nb)]
 
     return res
 
-- 
2.43.0


From 638a77ea6830a235ef0064c14670b7328597268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 094/134] fix: entropic_partial_wasserstein_logscale accepts a
 float mass with all backends

---
 ot/partial/partial_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index d937f43..766cd5c 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -783,7 +783,8 @@ def entropic_partial_wasserstein_logscale(
     log_e = {"err": []}
 
     LK = -M / reg - 1e30 * zero
-    LK = LK + nx.log(m) - nx.logsumexp(LK)
+    Lm = nx.log(m + 0 * nx.sum(a))
+    LK = LK + Lm - nx.logsumexp(LK)
 
     err, cpt = 1, 0
 
@@ -802,7 +803,7 @@ def entropic_partial_wasserstein_logscale(
         Lq2 = Lq2 + LK1prev - LK2
         LK2prev = LK2
         LK2 = LK2 + Lq3
-        LK = LK2 + nx.log(m) - nx.logsumexp(LK2)
+        LK = LK2 + Lm - nx.logsumexp(LK2)
         Lq3 = Lq3 + LK2prev - LK
 
         if nx.any(nx.isnan(LK)) or nx.any(nx.isinf(LK)):
-- 
2.43.0


From db165fd740a43b8d50d9bb67009942147efaafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 095/134] fix: gmm_ot_apply_map works in the type of its input

---
 ot/gmm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 3cb6cea..a108aef 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -306,7 +306,7 @@ def gmm_ot_apply_map(
     n_samples = x.shape[0]
 
     if method == "bary":
-        out = nx.zeros(x.shape)
+        out = nx.zeros(x.shape, type_as=x)
         logpdf = nx.stack(
             [gaussian_logpdf(x, m_s[k], C_s[k])[:, None] for k in range(k_s)]
         )
@@ -334,8 +334,8 @@ def gmm_ot_apply_map(
         # i and j, b[i, j] is the translation part
         rng = np.random.RandomState(seed)
 
-        A = nx.zeros((k_s, k_t, d, d))
-        b = nx.zeros((k_s, k_t, d))
+        A = nx.zeros((k_s, k_t, d, d), type_as=x)
+        b = nx.zeros((k_s, k_t, d), type_as=x)
 
         # only need to compute for non-zero plan entries
         for i, j in zip(*nx.where(plan > 0)):
@@ -350,18 +350,18 @@ def gmm_ot_apply_map(
             [gaussian_logpdf(x, m_s[k], C_s[k]) for k in range(k_s)], axis=-1
         )
         # (n_samples, k_s)
-        out = nx.zeros(x.shape)
+        out = nx.zeros(x.shape, type_as=x)
 
         for i_sample in range(n_samples):
             log_g = logpdf[i_sample]
             log_diff = log_g[:, None] - log_g[None, :]
             weighted_exp = w_s[:, None] * nx.exp(log_diff)
-            denom = nx.sum(weighted_exp, axis=0)[:, None] * nx.ones(plan.shape[1])
+            denom = nx.sum(weighted_exp, axis=0)[:, None] * nx.ones(plan.shape[1], type_as=x)
             p_mat = plan / denom
 
             p = p_mat.reshape(k_s * k_t)  # stack line-by-line
             # sample between 0 and k_s * k_t - 1
-            ij_mat = rng.choice(k_s * k_t, p=p)
+            ij_mat = rng.choice(k_s * k_t, p=nx.to_numpy(p))
             i = ij_mat // k_t
             j = ij_mat % k_t
             out[i_sample] = A[i, j] @ x[i_sample] + b[i, j]
-- 
2.43.0


From a28aacd73f22d2b93badcdbe35f667a53233ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 096/134] fix: semirelaxed barycenters accept weights of all
 backends

---
 ot/gromov/_semirelaxed.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 4dc7469..b6b71e5 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1592,10 +1592,11 @@ def semirelaxed_gromov_barycenters(
 
     S = len(Cs)
     if lambdas is None:
-        lambdas = nx.ones(S) / S
+        lambdas = nx.ones(S, type_as=Cs[0]) / S
     else:
         lambdas = list_to_array(lambdas)
-        lambdas = nx.from_numpy(lambdas)
+        if isinstance(lambdas, np.ndarray):
+            lambdas = nx.from_numpy(lambdas, type_as=Cs[0])
 
     # Initialization of transport plans and C (if not provided by user)
     if init_C is None:
@@ -1622,7 +1623,7 @@ def semirelaxed_gromov_barycenters(
                 noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
-                noise = nx.from_numpy(noise)
+                noise = nx.from_numpy(noise, type_as=Cs[0])
                 C = C + noise
 
         else:  # relies on partitioning of inputs
@@ -1908,10 +1909,11 @@ def semirelaxed_fgw_barycenters(
 
     S = len(Cs)
     if lambdas is None:
-        lambdas = nx.ones(S) / S
+        lambdas = nx.ones(S, type_as=Cs[0]) / S
     else:
         lambdas = list_to_array(lambdas)
-        lambdas = nx.from_numpy(lambdas)
+        if isinstance(lambdas, np.ndarray):
+            lambdas = nx.from_numpy(lambdas, type_as=Cs[0])
 
     if fixed_structure:
         if init_C is None:
@@ -1953,7 +1955,7 @@ def semirelaxed_fgw_barycenters(
                 noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
-                noise = nx.from_numpy(noise)
+                noise = nx.from_numpy(noise, type_as=Cs[0])
                 C = C + noise
 
         else:
-- 
2.43.0


From 7372b09e7317a45d12f034f39f8a5490a500165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 097/134] fix: k-means representants of samples with all
 backends

---
 ot/gromov/_quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 861cbfd..25cf168 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -947,7 +947,7 @@ def get_partition_and_representants_samples(
         rep_indices = []
         for part_id in range(npart):
             indices = nx.where(part == part_id)[0]
-            dists = dist(X[indices], km.cluster_centers_[part_id][None, :])
+            dists = dist(X[nx.to_numpy(indices)], km.cluster_centers_[part_id][None, :])
             best_idx = indices[dists.argmin()]
             rep_indices.append(best_idx)
 
-- 
2.43.0


From 2ffa9da31abde64a406181c34b80173e9debd456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 098/134] fix: k-means initialization of lowrank_sinkhorn has
 the type of the data

---
 ot/lowrank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index ba22097..fd5a3d6 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -124,7 +124,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
                 n_clusters=rank, random_state=random_state, n_init="auto"
             )
             kmeans_Xs.fit(X_s)
-            Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_)
+            Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_, type_as=X_s)
             C_Xs = dist(X_s, Z_Xs)  # shape (ns, rank)
             C_Xs = C_Xs / nx.max(C_Xs)
             Q = sinkhorn(a, g, C_Xs, reg=reg_init, numItermax=10000, stopThr=1e-3)
@@ -134,7 +134,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
                 n_clusters=rank, random_state=random_state, n_init="auto"
             )
             kmeans_Xt.fit(X_t)
-            Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_)
+            Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_, type_as=X_s)
             C_Xt = dist(X_t, Z_Xt)  # shape (nt, rank)
             C_Xt = C_Xt / nx.max(C_Xt)
             R = sinkhorn(b, g, C_Xt, reg=reg_init, numItermax=10000, stopThr=1e-3)
-- 
2.43.0


From 76481ff395e30127a493dd554b14bc72a371d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 099/134] fix: quantized solvers do not reseed the global
 random generator

---
 ot/gromov/_quantized.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 25cf168..f51e32a 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -340,8 +340,8 @@ def get_graph_partition(
 
     elif part_method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=C.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=C.shape[0]))
 
     elif part_method == "louvain":
         C = nx.to_numpy(C0)
@@ -424,10 +424,10 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
         rep_indices = nx.arange(n_part_ids)
 
     elif rep_method == "random":
-        random.seed(random_state)
+        rng = random.Random(random_state)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif rep_method == "pagerank":
         C0, part0 = C, part
@@ -922,14 +922,14 @@ def get_partition_and_representants_samples(
         rep_indices = nx.arange(n)
 
     elif npart == 1:
-        random.seed(random_state)
+        rng = random.Random(random_state)
         part = nx.zeros(n)
-        rep_indices = [random.choice(nx.arange(n))]
+        rep_indices = [rng.choice(nx.arange(n))]
 
     elif method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=X.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=X.shape[0]))
         part = nx.from_numpy(part, type_as=X0)
 
         # randomly select representant in each partition
@@ -937,7 +937,7 @@ def get_partition_and_representants_samples(
         part_ids = nx.unique(part)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif method == "kmeans":
         X = nx.to_numpy(X0)
-- 
2.43.0


From 0e49b5d2e6b03e8ee1c7beb8a324ed20053afd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 100/134] fix: fda and wda do not modify the data

---
 ot/dr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 4914e6b..e0a4bd4 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -102,7 +102,7 @@ def fda(X, y, p=2, reg=1e-16):
     """
 
     mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
@@ -219,7 +219,7 @@ def wda(
         raise ValueError("Unknown Sinkhorn method '%s'." % sinkhorn_method)
 
     mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
-- 
2.43.0


From 48d2339d91af004549928956479b8ccdb4085272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 101/134] fix: fitting a transport with target labels does not
 change its limit_max

---
 ot/da.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index b6f31b0..049e2e9 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -595,8 +595,9 @@ class BaseTransport(BaseEstimator):
             )
 
             if (ys is not None) and (yt is not None):
-                if self.limit_max != np.inf:
-                    self.limit_max = self.limit_max * nx.max(self.cost_)
+                limit_max = getattr(self, "limit_max", np.inf)
+                if limit_max != np.inf:
+                    limit_max = limit_max * nx.max(self.cost_)
 
                 # missing_labels is a (ns, nt) matrix of {0, 1} such that
                 # the cells (i, j) has 0 iff either ys[i] or yt[j] is masked
@@ -614,7 +615,7 @@ class BaseTransport(BaseEstimator):
                 # (as we explicitly cover potential NANs later)
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore", category=RuntimeWarning)
-                    cost_correction = label_match * missing_labels * self.limit_max
+                    cost_correction = label_match * missing_labels * limit_max
                 # this operation is necessary because 0 * Inf = NAN
                 # thus is irrelevant when limit_max is finite
                 cost_correction = nx.nan_to_num(cost_correction, -np.inf)
-- 
2.43.0


From ea3c74f634e696295909fd3a78a932ad994b576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 102/134] fix: fitting a SinkhornTransport does not change its
 parameters

---
 ot/da.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 049e2e9..7607883 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1286,10 +1286,11 @@ class SinkhornTransport(BaseTransport):
 
         super(SinkhornTransport, self).fit(Xs, ys, Xt, yt)
 
+        log, method = self.log, self.method
         if self.out_of_sample_map == "continuous":
-            self.log = True
-            if not self.method == "sinkhorn_log":
-                self.method = "sinkhorn_log"
+            log = True
+            if not method == "sinkhorn_log":
+                method = "sinkhorn_log"
                 warnings.warn(
                     "The method has been set to 'sinkhorn_log' as it is the only method available for out_of_sample_map='continuous'"
                 )
@@ -1300,15 +1301,15 @@ class SinkhornTransport(BaseTransport):
             b=self.mu_t,
             M=self.cost_,
             reg=self.reg_e,
-            method=self.method,
+            method=method,
             numItermax=self.max_iter,
             stopThr=self.tol,
             verbose=self.verbose,
-            log=self.log,
+            log=log,
         )
 
         # deal with the value of log
-        if self.log:
+        if log:
             self.coupling_, self.log_ = returned_
         else:
             self.coupling_ = returned_
-- 
2.43.0


From 658b3188bff61df77652bb952709fa8fe8ef729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 103/134] fix: parameters of EMDLaplaceTransport are found by
 get_params and used after set_params

---
 ot/da.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 7607883..dc3c5bf 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1755,13 +1755,13 @@ class EMDLaplaceTransport(BaseTransport):
         distribution_estimation=distribution_estimation_uniform,
         out_of_sample_map="ferradans",
     ):
-        self.reg = reg_type
+        self.reg_type = reg_type
         self.reg_lap = reg_lap
         self.reg_src = reg_src
         self.metric = metric
         self.norm = norm
         self.similarity = similarity
-        self.sim_param = similarity_param
+        self.similarity_param = similarity_param
         self.max_iter = max_iter
         self.tol = tol
         self.max_inner_iter = max_inner_iter
@@ -1805,8 +1805,8 @@ class EMDLaplaceTransport(BaseTransport):
             xt=self.xt_,
             M=self.cost_,
             sim=self.similarity,
-            sim_param=self.sim_param,
-            reg=self.reg,
+            sim_param=self.similarity_param,
+            reg=self.reg_type,
             eta=self.reg_lap,
             alpha=self.reg_src,
             numItermax=self.max_iter,
-- 
2.43.0


From 8b89b80f02a8131c1bac289d3df63437e5693917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 104/134] fix: gcg minimizes its objective with the entropic
 term

---
 ot/optim.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ot/optim.py b/ot/optim.py
index eb71c7c..5559f7e 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -326,7 +326,8 @@ def generic_conditional_gradient(
     else:
 
         def cost(G):
-            return nx.sum(M * G) + reg1 * f(G) + reg2 * nx.sum(G * nx.log(G))
+            log_G = nx.log(nx.clip(G, 1e-30, None))
+            return nx.sum(M * G) + reg1 * f(G) + reg2 * nx.sum(G * log_G)
 
     cost_G = cost(G)
     if log:
@@ -353,11 +354,12 @@ def generic_conditional_gradient(
             df_G = df(G)
         Mi = M + reg1 * df_G
 
+        # solve linear program (lp_solver handles the entropic term if any)
+        Gc, innerlog_ = lp_solver(a, b, Mi, **kwargs)
+
         if reg2 is not None:
-            Mi = Mi + reg2 * (1 + nx.log(G))
+            Mi = Mi + reg2 * (1 + nx.log(nx.clip(G, 1e-30, None)))
 
-        # solve linear program
-        Gc, innerlog_ = lp_solver(a, b, Mi, **kwargs)
         # line search
         deltaG = Gc - G
 
@@ -914,7 +916,7 @@ def gcg(
         f,
         df,
         reg2,
-        None,
+        reg1,
         lp_solver,
         line_search,
         G0=G0,
-- 
2.43.0


From cd8ae93f33c902da276d1853eb3bcca2e041a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 105/134] fix: Gaussian GW mapping accepts an array of signs

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 7c25cd6..7e40d0a 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -1195,7 +1195,7 @@ def empirical_gaussian_gromov_wasserstein_mapping(
     # select the sign of the eigenvalues
     if sign_eigs is None:
         sign_eigs = nx.ones(min(m, n), type_as=mu_s)
-    elif sign_eigs == "skewness":
+    elif isinstance(sign_eigs, str) and sign_eigs == "skewness":
         size = min(m, n)
         skew_s = nx.sum((nx.dot(xs, U_s[:, :size])) ** 3 * ws, axis=0)
         skew_t = nx.sum((nx.dot(xt, U_t[:, :size])) ** 3 * wt, axis=0)
-- 
2.43.0


From 09319a7cfcdb4722497367fee4888b5d5a510be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 106/134] fix: continuous out of sample maps do not underflow

---
 ot/da.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index dc3c5bf..5f03a26 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1363,7 +1363,8 @@ class SinkhornTransport(BaseTransport):
 
                 M = cost_normalization(M, self.norm, value=self.norm_cost_)
 
-                K = nx.exp(-M / self.reg_e + g[None, :])
+                K = -M / self.reg_e + g[None, :]
+                K = nx.exp(K - nx.max(K, axis=1, keepdims=True))
 
                 transp_Xs_ = nx.dot(K, self.xt_) / nx.sum(K, axis=1)[:, None]
 
@@ -1419,7 +1420,8 @@ class SinkhornTransport(BaseTransport):
                 M = dist(Xt[bi], self.xs_, metric=self.metric)
                 M = cost_normalization(M, self.norm, value=self.norm_cost_)
 
-                K = nx.exp(-M / self.reg_e + f[None, :])
+                K = -M / self.reg_e + f[None, :]
+                K = nx.exp(K - nx.max(K, axis=1, keepdims=True))
 
                 transp_Xt_ = nx.dot(K, self.xs_) / nx.sum(K, axis=1)[:, None]
 
-- 
2.43.0


From f14e327aa99ad957b8207d3ef731884c3d02cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 107/134] fix: gradient of the multi-marginal 1D grid loss

---
 ot/lp/dmmot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index f40a99b..a2db858 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -185,7 +185,7 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
             pass
 
     dualobj = sum([np.dot(A[:, i], arr) for i, arr in enumerate(dual)])
-    obj = nx.from_numpy(obj)
+    obj = nx.from_numpy(np.asarray(obj), type_as=A_copy)
 
     log_dict = {
         "A": xx,
@@ -195,7 +195,8 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
     }
 
     # define forward/backward relations for pytorch
-    obj = nx.set_gradients(obj, (A_copy), (dual))
+    grad = nx.from_numpy(np.stack(dual, axis=1), type_as=A_copy)
+    obj = nx.set_gradients(obj, (A_copy,), (grad,))
 
     if log:
         return obj, log_dict
-- 
2.43.0


From 9121dd1c67a8fadf48856fae1e13714255428990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 108/134] fix: projection_sparse_simplex accepts max_nz larger
 than the size

---
 ot/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/utils.py b/ot/utils.py
index 97cbcf9..20ddb8c 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -203,6 +203,7 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         # For each row of V, find top max_nz values; arrange the
         # corresponding column indices such that their values are
         # in a descending order.
+        max_nz = min(max_nz, V.shape[1])
         max_nz_indices = nx.argsort(V, axis=1)[:, -max_nz:]
         max_nz_indices = nx.flip(max_nz_indices, axis=1)
 
-- 
2.43.0


From 757d9160ed7296b643e7695a6c168f778688d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 109/134] fix: deprecated dataset functions use their
 parameters

---
 ot/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index 6e3be51..a5bdf4b 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -80,7 +80,7 @@ def make_2D_samples_gauss(n, m, sigma, random_state=None):
 @deprecated()
 def get_2D_samples_gauss(n, m, sigma, random_state=None):
     """Deprecated see  make_2D_samples_gauss"""
-    return make_2D_samples_gauss(n, m, sigma, random_state=None)
+    return make_2D_samples_gauss(n, m, sigma, random_state=random_state)
 
 
 def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **kwargs):
@@ -179,4 +179,6 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
 @deprecated()
 def get_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs):
     """Deprecated see  make_data_classif"""
-    return make_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs)
+    return make_data_classif(
+        dataset, n, nz=nz, theta=theta, random_state=random_state, **kwargs
+    )
-- 
2.43.0


From e051844e57770801d38645c4da7364485ad2e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 110/134] fix: make_data_classif returns n samples for
 2gauss_prop

---
 ot/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index a5bdf4b..b39b5c0 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -157,7 +157,7 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
         x = x.dot(rot)
 
     elif dataset.lower() == "2gauss_prop":
-        y = np.concatenate((np.ones(int(p * n)), np.zeros(int((1 - p) * n))))
+        y = np.concatenate((np.ones(int(p * n)), np.zeros(n - int(p * n))))
         x = np.hstack((0 * y[:, None] - 0, 1 - 2 * y[:, None])) + nz * generator.randn(
             len(y), 2
         )
-- 
2.43.0


From 11d7deb24f18f8ca8dd48f606ee66e571cb5a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 111/134] fix: marginals of lazy plans and integer indices of
 low rank lazy tensors

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 20ddb8c..72d4a6a 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -851,7 +851,7 @@ def get_lowrank_lazytensor(Q, R, d=None, nx=None):
     else:
 
         def func(i, j, Q, R, d):
-            return nx.dot(Q[i] * d[None, :], R[j].T)
+            return nx.dot(Q[i] * d, R[j].T)
 
         T = LazyTensor(shape, func, Q=Q, R=R, d=d)
 
@@ -1334,7 +1334,7 @@ class OTResult:
     def marginals(self):
         """Marginals of the transport plan: should be very close to "a" and "b"
         for balanced OT."""
-        if self._plan is not None:
+        if self._plan is not None or self._lazy_plan is not None:
             return self.marginal_a, self.marginal_b
         else:
             return None
-- 
2.43.0


From 4c602172d6cae16ab1be14a03cf98242b9b9ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 112/134] fix: paired Bures-Wasserstein distances fall back to
 all pairs for sets of different sizes

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 7e40d0a..3106489 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -344,7 +344,7 @@ def bures_wasserstein_distance(ms, mt, Cs, Ct, paired=False, log=False):
         assert (
             len(ms.shape) == 2 and len(mt.shape) == 2
         ), "Both ms and mt should be batched"
-        if paired and len(ms.shape) == len(mt.shape):
+        if paired and len(ms) == len(mt):
             # Return shape (n,)
             squared_dist_m = nx.norm(ms - mt, axis=-1) ** 2
         else:
-- 
2.43.0


From a2827fa494861a886e7fa23814662de7488c5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 113/134] fix: empirical Bures-Wasserstein barycenter of a
 single set of samples

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 3106489..2c7ac2d 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -866,7 +866,7 @@ def empirical_bures_wasserstein_barycenter(
         SIAM Journal on Mathematical Analysis, vol. 43, no. 2, pp. 904-924,
         2011.
     """
-    X = list_to_array(*X)
+    X = [list_to_array(x) for x in X]
     nx = get_backend(*X)
 
     k = len(X)
-- 
2.43.0


From 268fab5a4f4392ba16a0951cde59a557796fbf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 114/134] fix: Euclidean projection of
 gmm_barycenter_fixed_point divides by the barycenter weights

---
 ot/gmm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index a108aef..a046dd9 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -540,9 +540,11 @@ def gmm_barycenter_fixed_point(
             means_selection = nx.zeros((n, K, d), type_as=means)
             covs_selection = nx.zeros((n, K, d, d), type_as=means)
             for k in range(K):
-                means_selection[:, k, :] = n * pi_list[k] @ means_list[k]
-                covs_selection[:, k, :, :] = (
-                    nx.einsum("ij,jab->iab", pi_list[k], covs_list[k]) * n
+                # conditional weights of the components given component i
+                cond = pi_list[k] / w_bar[:, None]
+                means_selection[:, k, :] = cond @ means_list[k]
+                covs_selection[:, k, :, :] = nx.einsum(
+                    "ij,jab->iab", cond, covs_list[k]
                 )
 
         # each component i of the barycentre will be a Bures barycentre of the
-- 
2.43.0


From 17003dabf7be1e5108b0dc10979993b85e692454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 115/134] fix: unbalanced COOT accepts initial dual vectors of
 the samples only

---
 ot/gromov/_unbalanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 6971b6a..1775755 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -244,7 +244,7 @@ def fused_unbalanced_across_spaces_divergence(
 
     for tuple in [duals_samp, duals_feat]:
         if tuple is not None:
-            d1, d2 = duals_feat
+            d1, d2 = tuple
             if d1 is not None:
                 arr.append(list_to_array(d1))
             if d2 is not None:
-- 
2.43.0


From cca64f6efae926edf0181eabd7de2463ff57153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 116/134] fix: sample plan of unbalanced COOT uses the sample
 regularization

---
 ot/gromov/_unbalanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 1775755..a9043c5 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -388,7 +388,7 @@ def fused_unbalanced_across_spaces_divergence(
 
         if divergence == "kl":
             new_rho = (rho_x * mass, rho_y * mass)
-            new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
+            new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
             new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
-- 
2.43.0


From a24aad8f63a37c079c4bd0b48899abc48f198bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 117/134] fix: independent regularization in the cost of
 unbalanced COOT

---
 ot/gromov/_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index bfa90c4..57b49d5 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1265,10 +1265,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_samp != 0:
             div_samp = div_to_product(
                 pi_samp,
-                pi1_samp,
-                pi2_samp,
                 px_samp,
                 py_samp,
+                pi1_samp,
+                pi2_samp,
                 divergence,
                 mass=True,
                 nx=nx,
@@ -1277,10 +1277,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_feat != 0:
             div_feat = div_to_product(
                 pi_feat,
-                pi1_feat,
-                pi2_feat,
                 px_feat,
                 py_feat,
+                pi1_feat,
+                pi2_feat,
                 divergence,
                 mass=True,
                 nx=nx,
-- 
2.43.0


From 96476ceb79ccf330ac7cfb45f373810ef77beed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 118/134] fix: gradients of entropic COOT with respect to the
 weights

---
 ot/coot.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ot/coot.py b/ot/coot.py
index fd59a50..8d88c07 100644
--- a/ot/coot.py
+++ b/ot/coot.py
@@ -503,6 +503,19 @@ def co_optimal_transport2(
     vx_samp, vy_samp = dict_log["duals_sample"]
     vx_feat, vy_feat = dict_log["duals_feature"]
 
+    # with entropic regularization the log of the scaling vectors are stored
+    # and not the dual potentials
+    if isinstance(epsilon, float) or isinstance(epsilon, int):
+        eps_samp, eps_feat = epsilon, epsilon
+    else:
+        eps_samp, eps_feat = epsilon[0], epsilon[1]
+    if eps_samp > 0:
+        vx_samp = eps_samp * (vx_samp - nx.log(wx_samp))
+        vy_samp = eps_samp * (vy_samp - nx.log(wy_samp))
+    if eps_feat > 0:
+        vx_feat = eps_feat * (vx_feat - nx.log(wx_feat))
+        vy_feat = eps_feat * (vy_feat - nx.log(wy_feat))
+
     gradX = (
         2 * X * (wx_samp[:, None] * wx_feat[None, :]) - 2 * pi_samp @ Y @ pi_feat.T
     )  # shape (nx_samp, nx_feat)
-- 
2.43.0


From ef20c9f518986e29ce4bc71be0abf64358da0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 119/134] fix: value of fused unbalanced GW without linear cost
 on jax

---
 ot/gromov/_unbalanced.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index a9043c5..d43b79b 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -1271,9 +1271,10 @@ def fused_unbalanced_gromov_wasserstein2(
 
     # set gradients
     fugw = log_fugw["fugw_cost"]
-    fugw = nx.set_gradients(
-        fugw, (Cx, Cy, M, wx, wy), (gradX, gradY, gradM, grad_wx, grad_wy)
-    )
+    inputs, grads = (Cx, Cy, wx, wy), (gradX, gradY, grad_wx, grad_wy)
+    if M is not None:
+        inputs, grads = inputs + (M,), grads + (gradM,)
+    fugw = nx.set_gradients(fugw, inputs, grads)
 
     if log:
         return fugw, log_fugw
-- 
2.43.0


From 3d73ba9c862ae53fed5c2ae6310456c87002ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 120/134] fix: value of low rank GW uses the final inner
 weights

---
 ot/gromov/_lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index b7f5c49..ea1f5f9 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -321,7 +321,7 @@ def lowrank_gromov_wasserstein_samples(
     c1 = nx.dot(x_, a) + nx.dot(y_, b)
 
     G = nx.dot(C1, nx.dot(C2, R))
-    G = nx.dot(Q.T, G * diag_g)
+    G = nx.dot(Q.T, G / g[None, :])
     value_quad = c1 + nx.trace(G) / 2
 
     if reg != 0:
-- 
2.43.0


From 4e1107729f43735b14d842fe1564e8ea482c49ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 121/134] fix: weak optimal transport with samples of zero
 weight

---
 ot/weak.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/weak.py b/ot/weak.py
index 7173960..3c958ea 100644
--- a/ot/weak.py
+++ b/ot/weak.py
@@ -110,13 +110,17 @@ def weak_optimal_transport(
     else:
         T0 = nx.to_numpy(G0)
 
+    # samples without mass have no barycentric projection
+    a_inv = np.zeros_like(a2)
+    a_inv[a2 > 0] = 1 / a2[a2 > 0]
+
     # weak OT loss
     def f(T):
-        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) / a2[:, None]) ** 2, 1))
+        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) * a_inv[:, None]) ** 2, 1))
 
     # weak OT gradient
     def df(T):
-        return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a2[:, None], Xb2.T)
+        return -2 * np.dot(Xa2 - np.dot(T, Xb2) * a_inv[:, None], Xb2.T)
 
     # solve with conditional gradient and return solution
     if log:
-- 
2.43.0


From 516c671546361cd099fcd6ddb511f52cad1cba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 122/134] fix: step size of low rank solvers with small costs

---
 ot/gromov/_lowrank.py |  4 +++-
 ot/lowrank.py         | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index ea1f5f9..5cc9fe2 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -262,7 +262,9 @@ def lowrank_gromov_wasserstein_samples(
                 norm_1 = nx.max(nx.abs(CR_g + reg * nx.log(Q))) ** 2
                 norm_2 = nx.max(nx.abs(CQ_g + reg * nx.log(R))) ** 2
                 norm_3 = nx.max(nx.abs(-omega * (diag_g**2))) ** 2
-                gamma = 10 / max(norm_1, norm_2, norm_3)
+                norm = max(norm_1, norm_2, norm_3)
+                # bound the exponents below when the gradients are small
+                gamma = 10 / max(norm, 0.2 * norm**0.5, 1e-16)
 
             K1 = nx.exp(-gamma * CR_g - ((gamma * reg) - 1) * nx.log(Q))
             K2 = nx.exp(-gamma * CQ_g - ((gamma * reg) - 1) * nx.log(R))
diff --git a/ot/lowrank.py b/ot/lowrank.py
index fd5a3d6..01a1591 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -126,7 +126,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
             kmeans_Xs.fit(X_s)
             Z_Xs = nx.from_numpy(kmeans_Xs.cluster_centers_, type_as=X_s)
             C_Xs = dist(X_s, Z_Xs)  # shape (ns, rank)
-            C_Xs = C_Xs / nx.max(C_Xs)
+            C_Xs = C_Xs / max(nx.max(C_Xs), 1e-16)
             Q = sinkhorn(a, g, C_Xs, reg=reg_init, numItermax=10000, stopThr=1e-3)
 
             # Init R
@@ -136,7 +136,7 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
             kmeans_Xt.fit(X_t)
             Z_Xt = nx.from_numpy(kmeans_Xt.cluster_centers_, type_as=X_s)
             C_Xt = dist(X_t, Z_Xt)  # shape (nt, rank)
-            C_Xt = C_Xt / nx.max(C_Xt)
+            C_Xt = C_Xt / max(nx.max(C_Xt), 1e-16)
             R = sinkhorn(b, g, C_Xt, reg=reg_init, numItermax=10000, stopThr=1e-3)
 
         else:
@@ -484,8 +484,10 @@ def lowrank_sinkhorn(
         if gamma_init == "rescale":
             norm_1 = nx.max(nx.abs(CR_ * diag_g + reg * nx.log(Q))) ** 2
             norm_2 = nx.max(nx.abs(CQ_ * diag_g + reg * nx.log(R))) ** 2
-            norm_3 = nx.max(nx.abs(-omega * diag_g)) ** 2
-            gamma = 10 / max(norm_1, norm_2, norm_3)
+            norm_3 = nx.max(nx.abs(-omega * diag_g**2)) ** 2
+            norm = max(norm_1, norm_2, norm_3)
+            # bound the exponents below when the gradients are small
+            gamma = 10 / max(norm, 0.2 * norm**0.5, 1e-16)
 
         eps1 = nx.exp(-gamma * CR_g - ((gamma * reg) - 1) * nx.log(Q))
         eps2 = nx.exp(-gamma * CQ_g - ((gamma * reg) - 1) * nx.log(R))
-- 
2.43.0


From 6df2729b83dbb3739871eb398939788a6546632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 123/134] fix: sparsity constraint of smooth OT larger than the
 number of samples

---
 ot/smooth.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 9fbac6c..8288372 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -233,13 +233,14 @@ class SparsityConstrained(Regularization):
 
     def delta_Omega(self, X):
         # For each column of X, find entries that are not among the top max_nz.
-        non_top_indices = np.argpartition(-X, self.max_nz, axis=0)[self.max_nz :]
-        # Set these entries to -inf.
-        if X.ndim == 1:
-            X[non_top_indices] = 0.0
-        else:
-            X[non_top_indices, np.arange(X.shape[1])] = 0.0
         max_X = np.maximum(X, 0)
+        if self.max_nz < X.shape[0]:
+            non_top_indices = np.argpartition(-X, self.max_nz, axis=0)[self.max_nz :]
+            # Set these entries to 0.
+            if X.ndim == 1:
+                max_X[non_top_indices] = 0.0
+            else:
+                max_X[non_top_indices, np.arange(X.shape[1])] = 0.0
         val = np.sum(max_X**2, axis=0) / (2 * self.gamma)
         G = max_X / self.gamma
         return val, G
-- 
2.43.0


From 2d726ec381d06c6d0be5c328753bb00b9295263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 124/134] fix: smooth OT with target samples of zero weight

---
 ot/smooth.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 8288372..878430f 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -197,12 +197,12 @@ class NegEntropy(Regularization):
         max_X = np.max(X, axis=0) / self.gamma
         exp_X = np.exp(X / self.gamma - max_X)
         val = self.gamma * (np.log(np.sum(exp_X, axis=0)) + max_X)
-        val -= self.gamma * np.log(b)
+        val -= self.gamma * np.log(np.where(b > 0, b, 1))
         G = exp_X / np.sum(exp_X, axis=0)
         return val, G
 
     def Omega(self, T):
-        return self.gamma * np.sum(T * np.log(T))
+        return self.gamma * np.sum(T * np.log(np.where(T > 0, T, 1)))
 
 
 class SquaredL2(Regularization):
@@ -215,7 +215,9 @@ class SquaredL2(Regularization):
         return val, G
 
     def max_Omega(self, X, b):
-        G = projection_simplex(X / (b * self.gamma), axis=0)
+        # columns without mass do not contribute to the plan
+        scale = np.where(b > 0, b, 1) * self.gamma
+        G = projection_simplex(X / scale, axis=0)
         val = np.sum(X * G, axis=0)
         val -= 0.5 * self.gamma * b * np.sum(G * G, axis=0)
         return val, G
@@ -247,9 +249,9 @@ class SparsityConstrained(Regularization):
 
     def max_Omega(self, X, b):
         # Project the scaled X onto the simplex with sparsity constraint.
-        G = ot.utils.projection_sparse_simplex(
-            X / (b * self.gamma), self.max_nz, axis=0
-        )
+        # Columns without mass do not contribute to the plan.
+        scale = np.where(b > 0, b, 1) * self.gamma
+        G = ot.utils.projection_sparse_simplex(X / scale, self.max_nz, axis=0)
         val = np.sum(X * G, axis=0)
         val -= 0.5 * self.gamma * b * np.sum(G * G, axis=0)
         return val, G
-- 
2.43.0


From c8318d5719e519b130f613f34221cdfb81329540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 125/134] fix: smooth OT uses the requested optimization method

---
 ot/smooth.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 878430f..0bf845a 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -615,7 +615,14 @@ def smooth_ot_dual(
 
     # solve dual
     alpha, beta, res = solve_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
@@ -742,7 +749,14 @@ def smooth_ot_semi_dual(
 
     # solve dual
     alpha, res = solve_semi_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
-- 
2.43.0


From 108960bfd7099ed189cbf0ed478ff9ba8d2aa2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 126/134] fix: coordinate gradient of the entropic semi-dual
 does not underflow

---
 ot/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 25b08c6..249d2aa 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -67,7 +67,7 @@ def coordinate_grad_semi_dual(b, M, reg, beta, i):
         Advances in Neural Information Processing Systems (2016).
     """
     r = M[i, :] - beta
-    exp_beta = np.exp(-r / reg) * b
+    exp_beta = np.exp(-(r - np.min(r)) / reg) * b
     khi = exp_beta / (np.sum(exp_beta))
     return b - khi
 
-- 
2.43.0


From a7287f07357188b0cec66e46ab4a0fd2e8ac4b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 127/134] fix: means of FDA and WDA are taken over the samples

The mean over all entries made the between-class scatter of FDA a multiple of the all-ones matrix and left the projections uncentred.
---
 ot/dr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index e0a4bd4..9cfabff 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -101,7 +101,7 @@ def fda(X, y, p=2, reg=1e-16):
         projection function including mean centering
     """
 
-    mx = np.mean(X)
+    mx = np.mean(X, axis=0)
     X = X - mx.reshape((1, -1))
 
     # data split between classes
@@ -119,7 +119,7 @@ def fda(X, y, p=2, reg=1e-16):
     mxc = np.zeros((d, nc))
 
     for i in range(nc):
-        mxc[:, i] = np.mean(xc[i])
+        mxc[:, i] = np.mean(xc[i], axis=0)
 
     mx0 = np.mean(mxc, 1)
     Cb = 0
@@ -218,7 +218,7 @@ def wda(
     else:
         raise ValueError("Unknown Sinkhorn method '%s'." % sinkhorn_method)
 
-    mx = np.mean(X)
+    mx = np.mean(X, axis=0)
     X = X - mx.reshape((1, -1))
 
     # data split between classes
-- 
2.43.0


From 146325b26c1fa058fa7a7c5eecbed0c3469524a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 128/134] fix: EWCA by majorization-minimization with an
 initial projection

---
 ot/dr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/dr.py b/ot/dr.py
index 9cfabff..bad270b 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -501,6 +501,8 @@ def ewca(
             lambda_scm = pca_fitted.explained_variance_[0]
     else:
         U = U0
+        if method == "MM":
+            lambda_scm = np.linalg.eigvalsh(X.T @ X / n)[-1]
 
     # marginals
     u0 = (1.0 / n) * np.ones(n)
-- 
2.43.0


From 097eca47ba898d9dacbd18b4f0c3688b88a05d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 129/134] fix: regularization paths stopped by the iteration
 limit are not extrapolated

---
 ot/regpath.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index aedc35b..700736c 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -667,8 +667,10 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
     if itmax <= n_iter:
         print("maximum iteration has been reached !")
 
-    # correct the last solution and gamma
-    if len(t_list) > 1:
+    # correct the last solution and gamma, unless the path stopped before reg
+    if n_iter >= itmax and gamma_list[-1] > reg:
+        pass
+    elif len(t_list) > 1:
         t_final = t_list[-2] + (t_list[-1] - t_list[-2]) * (reg - gamma_list[-2]) / (
             gamma_list[-1] - gamma_list[-2]
         )
@@ -822,8 +824,10 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
     if itmax <= n_iter:
         print("maximum iteration has been reached !")
 
-    # correct the last solution and gamma
-    if len(t_list) > 1:
+    # correct the last solution and gamma, unless the path stopped before reg
+    if n_iter >= itmax and gamma_list[-1] > reg:
+        pass
+    elif len(t_list) > 1:
         t_final = t_list[-2] + (t_list[-1] - t_list[-2]) * (reg - gamma_list[-2]) / (
             gamma_list[-1] - gamma_list[-2]
         )
-- 
2.43.0


From d6122c9bf25e5339c30865787d9a08e367e3f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 130/134] fix: quantized GW uses the requested partitions when
 networkx is installed

The fallback to random partitions and representants was applied whether or not networkx was available.
---
 ot/gromov/_quantized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index f51e32a..25dfbce 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -704,8 +704,8 @@ def quantized_fused_gromov_wasserstein(
                 default methods. Consider installing Networkx to fix this.
                 """
             )
-        part_method = "random"
-        rep_method = "random"
+            part_method = "random"
+            rep_method = "random"
 
     if (part_method in ["spectral", "spectral_fused"]) and (not sklearn_import):
         warnings.warn(
-- 
2.43.0


From 1d4dcada1cc1caadc1801cbb685175068c43b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 131/134] fix: plans of quantized GW are in the order of the
 samples

They were sorted by partition, so that their marginals were permuted weights and the reported value was not that of the samples.
---
 ot/gromov/_quantized.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 25dfbce..7cff389 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -273,6 +273,14 @@ def quantized_fused_gromov_wasserstein_partitioned(
         return T_global, Ts_local, T
 
 
+def _reorder_plan(T, part1, part2, nx):
+    """Put the rows and columns of a plan, which are sorted by partition, back
+    in the order of the samples."""
+    order1 = np.argsort(nx.to_numpy(part1), kind="stable")
+    order2 = np.argsort(nx.to_numpy(part2), kind="stable")
+    return T[np.argsort(order1), :][:, np.argsort(order2)]
+
+
 def get_graph_partition(
     C, npart, part_method="random", F=None, alpha=1.0, random_state=0, nx=None
 ):
@@ -846,6 +854,7 @@ def quantized_fused_gromov_wasserstein(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _reorder_plan(T, part1, part2, nx)
 
         # compute the transport cost on structures
         constC, hC1, hC2 = init_matrix(C1, C2, p, q, "square_loss", nx)
@@ -863,7 +872,7 @@ def quantized_fused_gromov_wasserstein(
     else:
         T_global, Ts_local, T = res
 
-        return T_global, Ts_local, T
+        return T_global, Ts_local, _reorder_plan(T, part1, part2, nx)
 
 
 def get_partition_and_representants_samples(
@@ -1269,6 +1278,7 @@ def quantized_fused_gromov_wasserstein_samples(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _reorder_plan(T, part1, part2, nx)
 
         C1 = dist(X1, X1)
         C2 = dist(X2, X2)
@@ -1289,4 +1299,4 @@ def quantized_fused_gromov_wasserstein_samples(
     else:
         T_global, Ts_local, T = res
 
-        return T_global, Ts_local, T
+        return T_global, Ts_local, _reorder_plan(T, part1, part2, nx)
-- 
2.43.0


From eecb9cb40b371cbe10143800ea63c937e2cbcde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 132/134] fix: GW estimation keeps the order of the arguments
 of the loss

---
 ot/gromov/_estimators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 18359af..add0751 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -95,6 +95,10 @@ def GW_distance_estimation(
         len_p, len_q = len_q, len_p
         C1, C2 = C2, C1
         T = T.T
+        loss_fun_ = loss_fun
+
+        def loss_fun(x, y):
+            return loss_fun_(y, x)
 
     if nb_samples_p is None:
         if nx.issparse(T):
-- 
2.43.0


From 182bce988adf6b010453c963bb2c4b7258993c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 133/134] fix: GW dictionary learning and unmixing of
 asymmetric structures

The cross term was that of the transposed structure.
---
 ot/gromov/_dictionary.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/gromov/_dictionary.py b/ot/gromov/_dictionary.py
index 6a2b307..955299d 100644
--- a/ot/gromov/_dictionary.py
+++ b/ot/gromov/_dictionary.py
@@ -204,8 +204,8 @@ def gromov_wasserstein_dictionary_learning(
             grad_Cdict = np.zeros_like(Cdict)
             for batch_idx, C_idx in enumerate(batch):
                 shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                    Ts[batch_idx].T.dot(Cs[C_idx])
+                ).dot(Ts[batch_idx])
                 grad_Cdict += (
                     unmixings[batch_idx][:, None, None]
                     * shared_term_structures[None, :, :]
@@ -477,7 +477,7 @@ def _cg_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = np.transpose(T).dot(C).dot(T)
 
     while (convergence_criterion > tol) and (count < max_iter):
         previous_loss = current_loss
@@ -815,8 +815,8 @@ def fused_gromov_wasserstein_dictionary_learning(
 
             for batch_idx, C_idx in enumerate(batch):
                 shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                    Ts[batch_idx].T.dot(Cs[C_idx])
+                ).dot(Ts[batch_idx])
                 shared_term_features = diag_q.dot(Ys_embedded[batch_idx]) - Ts[
                     batch_idx
                 ].T.dot(Ys[C_idx])
@@ -1144,7 +1144,7 @@ def _cg_fused_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = np.transpose(T).dot(C).dot(T)
     ones_ns_d = np.ones(Y.shape)
 
     while (convergence_criterion > tol) and (count < max_iter):
-- 
2.43.0


From 0b0b082c8fb2501bd488dd070acb95794ea9f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 134/134] fix: representants of partitions into single nodes
 given in any order

---
 ot/gromov/_quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 7cff389..315f0a1 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -429,7 +429,7 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
     part_ids = nx.unique(part)
     n_part_ids = part_ids.shape[0]
     if n_part_ids == C.shape[0]:
-        rep_indices = nx.arange(n_part_ids)
+        rep_indices = [nx.where(part == part_id)[0][0] for part_id in part_ids]
 
     elif rep_method == "random":
         rng = random.Random(random_state)
-- 
2.43.0

