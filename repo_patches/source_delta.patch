From 815f13c72dc948d2302652ac08a6c5ebe4708997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 01/58] fix: size the Shapley work buffers by the largest leaf
 of all trees, not of the last tree

---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 7707083..9ce2e34 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -96,6 +96,7 @@ class BaseAgnosTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -122,7 +123,6 @@ class BaseAgnosTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 # self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 9980aea..50e5314 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -557,6 +557,7 @@ class BaseTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -583,7 +584,6 @@ class BaseTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
-- 
2.43.0


From c2028c30fbecf83b658a12696800511e4de71dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 02/58] fix: rebuild the explainer after ACXplainer.fit is
 called again

---
 acv_explainers/acv_agnosticX.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index ccadcad..565d8a3 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -158,6 +158,7 @@ class ACXplainer:
         """
         X, y = check_X_y(X, y, dtype=np.double)
         self.d = X.shape[1]
+        self.check_is_explain = False
         self.model.fit(X=X, y=y, sample_weight=sample_weight, split_select_weights=split_select_weights,
                        always_split_features=always_split_features, categorical_features=categorical_features)
 
-- 
2.43.0


From b654763dc1f5e37d1bcdc6b8d7d900f987474e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 03/58] fix: fit_global_rules replaces the fitted rules only
 when it succeeds

---
 acv_explainers/acv_agnosticX.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 565d8a3..8eb2911 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -166,23 +166,17 @@ class ACXplainer:
         # TODO: think about removing s_star ? add complexity ?
         X, y = check_X_y(X, y, dtype=np.double)
         y = as_float_array(y)
+        unique_rules, unique_s_star = unique_rules_s_star(rules, rules_s_star)
+        metrics = compute_rules_metrics(unique_rules, X, y, unique_s_star, self.classifier)
+
+        # the fitted state is replaced only once everything above has succeeded
         self.rules_ori = rules
         self.rules_s_star_ori = rules_s_star
-        self.rules, self.rules_s_star = unique_rules_s_star(rules, rules_s_star)
+        self.rules, self.rules_s_star = unique_rules, unique_s_star
         if self.classifier:
-            self.rules_coverage, self.rules_acc, self.rules_var, self.rules_output, self.rules_output_proba = \
-                compute_rules_metrics(
-                    self.rules,
-                    X,
-                    y,
-                    self.rules_s_star,
-                    self.classifier)
+            self.rules_coverage, self.rules_acc, self.rules_var, self.rules_output, self.rules_output_proba = metrics
         else:
-            self.rules_coverage, self.rules_acc, self.rules_var, self.rules_output = compute_rules_metrics(self.rules,
-                                                                                                           X,
-                                                                                                           y,
-                                                                                                           self.rules_s_star,
-                                                                                                           self.classifier)
+            self.rules_coverage, self.rules_acc, self.rules_var, self.rules_output = metrics
         self.check_is_globalrule = True
 
     def predict(self, X):
-- 
2.43.0


From 8bd61a39af249bca1dcdfb94aebfaddcf25dd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 04/58] fix: skip the -1 children of leaves instead of reading
 outside the node tables

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 74 ++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index da190b7..a72b37a 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4268,6 +4268,11 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -4536,6 +4541,10 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -5160,6 +5169,11 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5266,6 +5280,11 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5432,6 +5451,11 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5538,6 +5562,11 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5674,6 +5703,11 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5829,6 +5863,11 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5923,6 +5962,11 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6509,6 +6553,11 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
@@ -6805,6 +6854,11 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6912,6 +6966,11 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7066,6 +7125,11 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7317,6 +7381,11 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7452,6 +7521,11 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
-- 
2.43.0


From 206edab7684c471ab041efda9f4059532e8c630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 05/58] fix: regression SDP of an observation no longer depends
 on the observations before it

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 38 ++++++++++-----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 38 ++++++++++-----------
 2 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index a72b37a..c8b0343 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -630,20 +630,19 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            norm[b] = 0
+            norm_u[b] = 0
+            norm_d[b] = 0
+            for leaf_numb in range(leaves_nb[b]):
+                norm[b] += p_n[b, leaf_numb, leaf_numb, i]
+                norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, i]
+                norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, i]
+
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
                         ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
                         ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
@@ -1198,20 +1197,19 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    norm[b] = 0
+                    norm_u[b] = 0
+                    norm_d[b] = 0
+                    for leaf_numb in range(leaves_nb[b]):
+                        norm[b] += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
                                 ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
                                 ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 58643f6..d7b126c 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -624,20 +624,19 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            norm[b] = 0
+            norm_u[b] = 0
+            norm_d[b] = 0
+            for leaf_numb in range(leaves_nb[b]):
+                norm[b] += p_n[b, leaf_numb, leaf_numb, i]
+                norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, i]
+                norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, i]
+
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
                     nb_leaf = leaves_nb[b]
-                    for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
                         ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
                         ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
@@ -1192,20 +1191,19 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    norm[b] = 0
+                    norm_u[b] = 0
+                    norm_d[b] = 0
+                    for leaf_numb in range(leaves_nb[b]):
+                        norm[b] += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
                             nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
                                 ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
                                 ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-- 
2.43.0


From b1160ca3636f63f58572766e3e7183a2acb76b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 06/58] fix: clear the entries left over from a larger
 coalition in the sufficient explanations

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 40 ++++++++++-----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 +++----
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index c8b0343..63a6dd2 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -941,8 +941,8 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -1245,8 +1245,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -3047,8 +3047,8 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -3969,8 +3969,8 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -4214,8 +4214,8 @@ cpdef global_sdp_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data, doub
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -6161,8 +6161,8 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -6309,8 +6309,8 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -6801,8 +6801,8 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -7327,8 +7327,8 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -7769,8 +7769,8 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index d7b126c..d8f9db4 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -935,8 +935,8 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -1239,8 +1239,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -1474,8 +1474,8 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
-                    for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
-                        s_star[R_buf[i], s] = -1
+                for s in range(len_s_star[R_buf[i]], X.shape[1]): # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
-- 
2.43.0


From a36521f6f5555008b4c9f1abb5c4978742fddc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 07/58] fix: normalized expectation ignores leaves without
 background observations instead of returning nan

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 63a6dd2..b2989cd 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -146,7 +146,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index d8f9db4..7e48d64 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -140,7 +140,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From 8055e55eaacb595b6d7642ccc6863cad1a640419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 08/58] fix: active Shapley values ignore empty leaf
 projections instead of returning nan

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 12 ++++++------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index b2989cd..c6806d0 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1918,7 +1918,7 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star[va, leaf_numb]
+                        p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi_n[leaf_numb, i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1994,8 +1994,8 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -3463,7 +3463,7 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -3539,8 +3539,8 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 7e48d64..f55584f 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1852,7 +1852,7 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star
+                        p_si = (csi * lm)/lm_star if lm_star !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi[i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1928,8 +1928,8 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s
-                        p_si = (csi * lm)/lm_si
+                        p_s = (cs * lm)/lm_s if lm_s !=0 else 0
+                        p_si = (csi * lm)/lm_si if lm_si !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -2157,7 +2157,7 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2233,8 +2233,8 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
-- 
2.43.0


From 81e18f5b8adf0427387e25159f7fc6440661b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 09/58] fix: global rules prediction chooses among the rules
 with enough coverage only

---
 acv_explainers/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 8961492..ec99a5a 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -987,9 +987,10 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_S.append(S[i])
 
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.max(y_weights[np.array(y_coverage) >= min_cov]) >= min_acc:
-            max_weights = np.max(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == max_weights)
+        # only the rules with enough coverage can be chosen
+        covered = np.where(np.array(y_coverage) >= min_cov)[0]
+        if len(covered) != 0 and np.max(y_weights[covered]) >= min_acc:
+            best_acc = covered[np.argmax(y_weights[covered])]
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
@@ -1021,9 +1022,10 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_S.append(S[i])
 
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.min(y_weights[np.array(y_coverage) >= min_cov]) <= min_mse:
-            min_weights = np.min(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == min_weights)
+        # only the rules with enough coverage can be chosen
+        covered = np.where(np.array(y_coverage) >= min_cov)[0]
+        if len(covered) != 0 and np.min(y_weights[covered]) <= min_mse:
+            best_acc = covered[np.argmin(y_weights[covered])]
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
-- 
2.43.0


From 92d4d6d149a3e7950b0d53514e7a718e7cc4a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 10/58] fix: pair each unique rule with its own explanation,
 not that of a close rule

---
 acv_explainers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index ec99a5a..ee5b910 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1095,7 +1095,7 @@ def unique_rules_s_star(rules, rules_output):
     for i in range(rules_unique.shape[0]):
         rule = rules_unique[i]
         for j in range(rules.shape[0]):
-            if np.allclose(rule, rules[j]):
+            if np.array_equal(rule, rules[j]):
                 rules_unique_output.append(rules_output[j])
                 break
     return rules_unique, rules_unique_output
-- 
2.43.0


From 92dc55d6fc8118b6dde07f3d3b10613a0e0bac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 11/58] fix: remove the counterfactual rules included in
 another one, not the ones including it

---
 acv_explainers/utils_cr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index e90cbca..b3f7282 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -802,7 +802,10 @@ def remove_in_wsdp(ra, sa, wa):
                 # ra[i] = ra[j]
                 # sa[i] = sa[j]
                 # wa[i] = wa[j]
-                remove_list.append(j)
+                # of several equal leaves, keep the first
+                if i > j or not np.array_equal(ra[i], ra[j]):
+                    remove_list.append(i)
+                    break
     ra_b = np.delete(ra_b, remove_list, axis=0)
     sa_b = np.delete(sa_b, remove_list, axis=0)
     wa_b = np.delete(wa_b, remove_list, axis=0)
-- 
2.43.0


From 4dac86900a2a52aebf59e62cb00b31401a6a78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 12/58] fix: CR evaluates its counterfactuals on the model it
 was given

---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 3853788..10b6741 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -4,7 +4,7 @@ import acv_explainers
 class CR:
 
     def __init__(self, acv_explainer, x_train, x_test, y_train, y_test, columns_name, model=None):
-        self.model = None
+        self.model = model
         self.columns_name = columns_name
         self.acv_explainer = acv_explainer
         self.x_train = x_train
-- 
2.43.0


From c4e81ac7204326b2f80b8afa1ec734103c2c5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 13/58] fix: sample all tests from the whole counterfactual
 rule, not from its first side

---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 10b6741..bed134a 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -273,7 +273,7 @@ class CR:
             if len(self.counterfactuals_samples_regional[best_id]) != 0:
                 a, sco = simulated_annealing(outlier_score, xi, self.S_star_regional[best_id], self.x_train,
                                              self.counterfactuals_samples_regional[best_id][
-                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])][0],
+                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])],
                                              batch, max_iter, temp)
                 self.dist_regional.append(np.squeeze(a))
                 self.score_regional.append(sco)
-- 
2.43.0


From 71a124a78aa9aea4018fb58c4821dc0d7ca0a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 14/58] fix: local counterfactual rules of a regression follow
 pi_level and the annealing parameters

---
 acv_explainers/counterfactual_rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index bed134a..79279a1 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,12 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=acc_level)
+                                                                                     pi_level=pi_level,
+                                                                                     p_best=p_best, n_try=n_try,
+                                                                                     batch=batch, max_iter=max_iter,
+                                                                                     temp=temp,
+                                                                                     max_iter_convergence=max_iter_convergence
+                                                                                     )
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From 94a6e41014e2f19c9ea69035b790f9cd39aca746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 15/58] fix: regional sampling does not need a local sampling
 before it

---
 acv_explainers/counterfactual_rules.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 79279a1..7fbd5ef 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -16,7 +16,7 @@ class CR:
         self.ddp_local, self.w_local = None, None
         self.counterfactuals_samples_local, self.counterfactuals_samples_sdp_local, \
         self.counterfactuals_samples_w_local = None, None, None
-        self.isolation = None, None
+        self.isolation = None
         self.dist_local = None
         self.score_local = None
         self.errs_local = None
@@ -209,10 +209,17 @@ class CR:
                                                      max_iter_convergence=max_iter_convergence
                                                      )
 
+    def check_isolation(self):
+        # the outlier score of the sampling: fitted once, by whichever sampling comes first
+        if self.isolation is None:
+            self.isolation = IsolationForest()
+            self.isolation.fit(self.x_train)
+
     def run_sampling_regional_counterfactuals(self, max_obs=2, batch=1000, max_iter=1000, temp=0.5):
         down = self.down_up[:, 0]
         up = self.down_up[:, 1]
         print('### Sampling using the regional counterfactual rules')
+        self.check_isolation()
         outlier_score = lambda x: self.isolation.decision_function(x)
         self.dist_regional = []
         self.score_regional = []
@@ -252,6 +259,7 @@ class CR:
         up = self.down_up[:, 1]
 
         print('### Sampling using the regional counterfactual rules')
+        self.check_isolation()
         outlier_score = lambda x: self.isolation.decision_function(x)
 
         self.dist_regional = []
-- 
2.43.0


From 86c1db62976c0b3e9b6a9bace964be2101e78c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 16/58] fix: a failed or interrupted compilation no longer
 leaves torn or mixed app files

---
 acv_app/app.py | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index 94ce07b..fade6b5 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -17,6 +17,38 @@ APP_PATH = __file__
 
 # define all required cache data for the app
 
+def save_bundle(path, acvtree, acvtree_agnostic, x_train, y_train, x_test, y_test):
+    """
+    Write the files of the app: all aside first, then in place. A failure while writing leaves the previous files as they
+    were, and the models are put back last, so that an interruption cannot mix the files of two compilations.
+    """
+    writers = {'x_train.csv': lambda f: x_train.to_csv(f, index=False),
+               'y_train.csv': lambda f: y_train.to_csv(f, index=False),
+               'x_test.csv': lambda f: x_test.to_csv(f, index=False),
+               'y_test.csv': lambda f: y_test.to_csv(f, index=False),
+               'acvtree.joblib': lambda f: dump(acvtree, f),
+               'acvtree_agnostic.joblib': lambda f: dump(acvtree_agnostic, f)}
+    models = ['acvtree_agnostic.joblib', 'acvtree.joblib']
+
+    try:
+        for name, write in writers.items():
+            with open(os.path.join(path, name + '.tmp'), 'wb') as f:
+                write(f)
+                f.flush()
+                os.fsync(f.fileno())
+    except BaseException:
+        for name in writers:
+            if os.path.exists(os.path.join(path, name + '.tmp')):
+                os.remove(os.path.join(path, name + '.tmp'))
+        raise
+
+    for name in models:
+        if os.path.exists(os.path.join(path, name)):
+            os.remove(os.path.join(path, name))
+    for name in writers:
+        os.replace(os.path.join(path, name + '.tmp'), os.path.join(path, name))
+
+
 def compile_acv(model, x_train, y_train, x_test, y_test, path):
     if type(x_train) != pd.core.frame.DataFrame:
         x_train = pd.DataFrame(x_train, columns=['X{}'.format(i) for i in range(x_train.shape[1])])
@@ -29,12 +61,7 @@ def compile_acv(model, x_train, y_train, x_test, y_test, path):
     acvtree = ACVTree(model, x_train.values)
     acvtree_agnostic = ACVTreeAgnostic(model, x_train.values[:5])
 
-    dump(acvtree, os.path.join(path, 'acvtree.joblib'))
-    dump(acvtree_agnostic, os.path.join(path, 'acvtree_agnostic.joblib'))
-    x_train.to_csv(os.path.join(path, 'x_train.csv'), index=False)
-    y_train.to_csv(os.path.join(path, 'y_train.csv'), index=False)
-    x_test.to_csv(os.path.join(path, 'x_test.csv'), index=False)
-    y_test.to_csv(os.path.join(path, 'y_test.csv'), index=False)
+    save_bundle(path, acvtree, acvtree_agnostic, x_train, y_train, x_test, y_test)
 
 
 def compile_ACXplainers(ACXplainers, x_train, y_train, x_test, y_test, path):
@@ -49,12 +76,7 @@ def compile_ACXplainers(ACXplainers, x_train, y_train, x_test, y_test, path):
         y_test = pd.DataFrame(y_test)
         y_train = pd.DataFrame(y_train)
 
-    dump(acvtree, os.path.join(path, 'acvtree.joblib'))
-    dump(acvtree_agnostic, os.path.join(path, 'acvtree_agnostic.joblib'))
-    x_train.to_csv(os.path.join(path, 'x_train.csv'), index=False)
-    y_train.to_csv(os.path.join(path, 'y_train.csv'), index=False)
-    x_test.to_csv(os.path.join(path, 'x_test.csv'), index=False)
-    y_test.to_csv(os.path.join(path, 'y_test.csv'), index=False)
+    save_bundle(path, acvtree, acvtree_agnostic, x_train, y_train, x_test, y_test)
 
 
 def run_webapp(pickle_path):
-- 
2.43.0


From 91c335f1d81e4f5c1d8f98138442a3ca26bc1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 17/58] fix: the app reads back exactly the values that were
 compiled

---
 acv_app/app.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index fade6b5..fb5db26 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -101,10 +101,10 @@ def main(LOAD_PATH):
 
     @st.cache
     def load_data():
-        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'))
-        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze()
-        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'))
-        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze()
+        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'), float_precision='round_trip')
+        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv'), float_precision='round_trip').values.squeeze(axis=1)
+        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'), float_precision='round_trip')
+        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv'), float_precision='round_trip').values.squeeze(axis=1)
         return x_train, x_test, y_train, y_test
 
     # data_load_state = st.sidebar.text('Loading data...')
-- 
2.43.0


From 5e3440f8defc814d2db9a8fe7ada842ced62312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 18/58] fix: the app shows the metrics of the rule on the page,
 not of the last rule computed

---
 acv_app/sdp_app.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/acv_app/sdp_app.py b/acv_app/sdp_app.py
index 0e29f50..8c7d940 100644
--- a/acv_app/sdp_app.py
+++ b/acv_app/sdp_app.py
@@ -1,3 +1,4 @@
+import copy
 from acv_app.colors import _colors as colors
 import pandas as pd
 import numpy as np
@@ -66,7 +67,9 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
         sdp, rules, sdp_all, rules_data, w = acvtree.compute_sdp_maxrules(x_test_np[obs:obs + 1], y_test_np[obs:obs + 1],
                                               x_train_np, y_train_np, S=[S], pi_level=pi)
 
-        acvtree.fit_global_rules(x_train_np, y_train_np, rules, [S])
+        # on a copy: the explainer is shared between the observations and the sessions
+        acvtree_rule = copy.copy(acvtree)
+        acvtree_rule.fit_global_rules(x_train_np, y_train_np, rules, [S])
 
         # extend_partition(rules, rules_data, sdp_all, pi=pi, S=[S])
 
@@ -75,7 +78,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
         rule_string = ['{} <= {} <= {}'.format(rule[i, 0] if rule[i, 0] > -1e+10 else -np.inf, columns[i],
                                                rule[i, 1] if rule[i, 1] < 1e+10 else +np.inf) for i in S]
         rule_string = ' and '.join(rule_string)
-        return rule_string
+        return rule_string, acvtree_rule.rules_coverage, acvtree_rule.rules_acc
 
     @st.cache(allow_output_mutation=True)
     def transform_scoal_to_col(sufficient_coal, columns_names):
@@ -243,17 +246,18 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
         maxrule = st.checkbox('Compute', value=False)
 
         if maxrule:
-            rule_string = compute_sdp_maxrule(idx, x_train.values.astype(np.double), y_train.astype(np.double),
-                                           x_test.values.astype(np.double), y_test.astype(np.double), t,
-                                           sufficient_coal[idx][exp_idx], pi_level)
+            rule_string, rule_coverage, rule_acc = \
+                compute_sdp_maxrule(idx, x_train.values.astype(np.double), y_train.astype(np.double),
+                                    x_test.values.astype(np.double), y_test.astype(np.double), t,
+                                    sufficient_coal[idx][exp_idx], pi_level)
 
             st.markdown("<" + 'h3' + " style='text-align: " + \
                         "; color:" + 'black' + "; '>" + rule_string + "</" + 'h3' + ">",
                         unsafe_allow_html=True)
             # st.markdown(rule_string)
 
-            rule_info = {'Rule coverage': acvtree.rules_coverage,
-                          'Rule accuracy/mse': acvtree.rules_acc}
+            rule_info = {'Rule coverage': rule_coverage,
+                          'Rule accuracy/mse': rule_acc}
 
             rule_info = pd.DataFrame(rule_info)
             st.dataframe(rule_info, 6000, 6000)
-- 
2.43.0


From 8ea41f85ad1326f7bb106f9caf4e204717f7b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 19/58] fix: sufficient_cxpl_rf returns the probabilities of
 every observation, aligned with its explanations

---
 acv_explainers/acv_agnosticX.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 8eb2911..e9a843f 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1210,7 +1210,8 @@ class ACXplainer:
                                             pi_level, minimal, stop, search_space[:10])
 
         c_expl = [sufficient_coal[1:] for sufficient_coal in c_expl]
-        return c_expl, cdp_expl[1:], cdp_global
+        cdp_expl = [cdp_ind[1:] for cdp_ind in cdp_expl]
+        return c_expl, cdp_expl, cdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
-- 
2.43.0


From 9db794ccdcae8027d6068819c6c98f034ababb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 20/58] fix: ACXplainer accepts data with a single feature

---
 acv_explainers/base_agnostree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 9ce2e34..0bf95bc 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -130,7 +130,7 @@ class BaseAgnosTree:
                     _ = get_partition(leaf_id, partition_leaf, node_id, self.trees[i].children_left,
                                       self.trees[i].children_right, self.trees[i].features, self.trees[i].thresholds)
 
-                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf)))
+                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf), axis=1))
                     self.node_idx.append(list(set(node_id[1:])))
                     self.max_var.append(len(self.node_idx[-1]))
                     # self.data_leaves.append(np.array([(self.data[:, s] <= self.partition_leaves[-1][s, 1]) * \
-- 
2.43.0


From 08b7ec0bed3b9284b01af3c2b645123eb5128219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 21/58] fix: importance_sdp_reg with groups tests leaf
 membership on every feature

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index c6806d0..a094b69 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1083,14 +1083,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(data.shape[0], nogil=True):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1148,14 +1148,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(data.shape[0], nogil=True):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index f55584f..8cf972b 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1077,14 +1077,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(data.shape[0]):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1142,14 +1142,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(data.shape[0]):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
-- 
2.43.0


From 73f51ba35b62fa0e8a4a353eba5cef3055545790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:17 +0000
Subject: [PATCH 22/58] fix: cached normalized Shapley values use the split
 convention of the trees

---
 acv_explainers/cyext_acv/cyext_acv_cache.pyx | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index f9f46ce..30791b1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -568,14 +568,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -597,14 +597,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 8cf972b..26a8d1d 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -2989,14 +2989,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3018,14 +3018,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
-- 
2.43.0


From 406e6f62ac2dd41eee689037e7501a8e958276b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:37 +0000
Subject: [PATCH 23/58] fix: rules are extended on data with a single feature
 too

---
 acv_explainers/utils.py    |  8 ++++----
 acv_explainers/utils_cr.py | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index ee5b910..7dcec4c 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -2125,9 +2125,9 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
     max_values = [np.max(x_train[:, i]) for i in range(x_train.shape[1])]
     min_values = [np.min(x_train[:, i]) for i in range(x_train.shape[1])]
 
-    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
-    best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)[0]
+    best_eval = value_function([best], max_values, min_values)[0]
+    curr, curr_eval = best, best_eval
 
     move = 0
     for i in range(max_iter):
@@ -2172,7 +2172,7 @@ def rules_by_annealing(value_function, rules, rules_data, sdp_all, x_train, pi_l
                                                     bad_sample,
                                                     p_best, n_try,
                                                     batch, max_iter, temp, max_iter_convergence)
-        sr.append(np.squeeze(best))
+        sr.append(best)
         sr_eval.append(best_eval)
     return np.array(sr), sr_eval
 
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index b3f7282..e3bf079 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -50,7 +50,7 @@ def return_leaf_cnt(ac_explainer, S_star, x_train_cnt, y_train_cnt, x_train, y_t
                                                 np.expand_dims(list_ric, axis=0), x_train,
                                    p_best=p_best, n_try=n_try,
                                    batch=batch, max_iter=max_iter, temp=temp, max_iter_convergence=max_iter_convergence)
-        rules_unique[i] = np.squeeze(sr[-1])
+        rules_unique[i] = sr[-1]
     return rules_unique
 
 
@@ -412,7 +412,7 @@ def return_leaf_cnt_reg(ac_explainer, S_star, x_train_cnt, y_train_cnt, down, up
                                    batch=batch, max_iter=max_iter, temp=temp,
                                    max_iter_convergence=max_iter_convergence
                                    )
-        rules_unique[i] = np.squeeze(sr[-1])
+        rules_unique[i] = sr[-1]
     return rules_unique
 
 
@@ -726,9 +726,9 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
     max_values = [np.max(x_train[:, i]) for i in range(x_train.shape[1])]
     min_values = [np.min(x_train[:, i]) for i in range(x_train.shape[1])]
 
-    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
-    best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)[0]
+    best_eval = value_function([best], max_values, min_values)[0]
+    curr, curr_eval = best, best_eval
 
     move = 0
     for i in range(max_iter):
-- 
2.43.0


From 75a09fef99d53135e6c3a7f660af1b42d4215ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 24/58] fix: a rule is extended only by an adjacent rule whose
 union with it is a rectangle

---
 acv_explainers/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 7dcec4c..f7d7aee 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -941,9 +941,10 @@ def extend_rec(rec_a, rec_b, S, axs, dim):
     a = 0
     for k in S:
         if k not in axs:
-            if not rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]:
+            if not (rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]):
                 a += 1
-    if a == 0:
+    # the union with rec_b can be a rectangle only if they are adjacent along a single axis
+    if a == 0 and len(axs) == 1:
         for i, k in enumerate(axs):
             rec_a[k, dim[i]] = rec_b[k, dim[i]]
     return rec_a
-- 
2.43.0


From 3766a3525fe4f143b1ee85c3fdc87a6c67113a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 25/58] fix: values in cache are used only for the groups of
 variables they were computed for

---
 acv_explainers/acv_tree.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e67a762..f1cbb60 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -28,13 +28,17 @@ class ACVTree(BaseTree):
             shapley_values (numpy.ndarray): The Shapley Values of each sample (# samples X # features X # model's output)
         """
         X = check_array(X, dtype=[np.double])
-        if not self.cache:
+        if not self.cache or not self.is_cached_for(C):
             return cyext_acv.shap_values_leaves_pa(X, self.data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.max_var,
                                                    self.node_idx_trees, C, num_threads)
         return self.shap_values_cache(X, C)
 
+    def is_cached_for(self, C):
+        # the values in cache are those of the groups of variables given at the initialization
+        return [list(c) for c in C] == [list(c) for c in self.C]
+
     def shap_values_acv_adap(self, X, S_star, N_star, size, C=[[]], num_threads=10):
         """
         Estimate the **Active** Shapley Values for a set of samples given **the corresponding** S_star and N_star of
@@ -380,10 +384,11 @@ class ACVTree(BaseTree):
 
         """
         X = check_array(X, dtype=[np.double])
+        lm, lm_s, lm_si = (self.lm, self.lm_s, self.lm_si) if self.is_cached_for(C) else self.leaves_cache(C)
         return cyext_acv_cache.shap_values_leaves_cache(np.array(X, dtype=np.float), self.data, self.values,
                                                         self.partition_leaves_trees,
-                                                        self.leaf_idx_trees, self.leaves_nb, self.lm, self.lm_s,
-                                                        self.lm_si,
+                                                        self.leaf_idx_trees, self.leaves_nb, lm, lm_s,
+                                                        lm_si,
                                                         self.max_var,
                                                         self.node_idx_trees, C, num_threads)
 
@@ -392,10 +397,11 @@ class ACVTree(BaseTree):
                 Same as **shap_values** but use cached values and no parallelism
         """
         X = check_array(X, dtype=[np.double])
+        lm, lm_s, lm_si = (self.lm, self.lm_s, self.lm_si) if self.is_cached_for(C) else self.leaves_cache_nopa(C)
         return cyext_acv_nopa.shap_values_leaves_cache_nopa(np.array(X, dtype=np.float), self.data, self.values,
                                                             self.partition_leaves_trees,
-                                                            self.leaf_idx_trees, self.leaves_nb, self.lm, self.lm_s,
-                                                            self.lm_si,
+                                                            self.leaf_idx_trees, self.leaves_nb, lm, lm_s,
+                                                            lm_si,
                                                             self.max_var,
                                                             self.node_idx_trees, C, num_threads)
 
@@ -645,24 +651,28 @@ class ACVTree(BaseTree):
                                                      num_threads)
 
     def shap_values_normalized_cache(self, X, C=[[]], num_threads=10):
+        lm_n, lm_s_n, lm_si_n = (self.lm_n, self.lm_s_n, self.lm_si_n) if self.is_cached_for(C) \
+            else self.leaves_cache_normalized(C)
         return cyext_acv_cache.shap_values_leaves_normalized_cache(np.array(X, dtype=np.float), self.data, self.values,
                                                                    self.partition_leaves_trees,
-                                                                   self.leaf_idx_trees, self.leaves_nb, self.lm_n,
-                                                                   self.lm_s_n, self.lm_si_n,
+                                                                   self.leaf_idx_trees, self.leaves_nb, lm_n,
+                                                                   lm_s_n, lm_si_n,
                                                                    self.max_var,
                                                                    self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized_cache_nopa(self, X, C=[[]], num_threads=10):
+        lm_n, lm_s_n, lm_si_n = (self.lm_n, self.lm_s_n, self.lm_si_n) if self.is_cached_for(C) \
+            else self.leaves_cache_normalized_nopa(C)
         return cyext_acv_nopa.shap_values_leaves_normalized_cache_nopa(np.array(X, dtype=np.float), self.data,
                                                                        self.values,
                                                                        self.partition_leaves_trees,
-                                                                       self.leaf_idx_trees, self.leaves_nb, self.lm_n,
-                                                                       self.lm_s_n, self.lm_si_n,
+                                                                       self.leaf_idx_trees, self.leaves_nb, lm_n,
+                                                                       lm_s_n, lm_si_n,
                                                                        self.max_var,
                                                                        self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized(self, X, C=[[]], num_threads=10):
-        if not self.cache_normalized:
+        if not self.cache_normalized or not self.is_cached_for(C):
             return cyext_acv.shap_values_leaves_normalized(np.array(X, dtype=np.float), self.data, self.values,
                                                            self.partition_leaves_trees,
                                                            self.leaf_idx_trees, self.leaves_nb, self.max_var,
-- 
2.43.0


From b62549fe66518803ea69b1a5fd1caee76e1a9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 26/58] fix: a failed fit leaves the explainer as it was

---
 acv_explainers/acv_agnosticX.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index e9a843f..99ac8e1 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -157,10 +157,10 @@ class ACXplainer:
             categorical_features (list): A list of column index values which should be considered categorical, or unordered.
         """
         X, y = check_X_y(X, y, dtype=np.double)
-        self.d = X.shape[1]
-        self.check_is_explain = False
         self.model.fit(X=X, y=y, sample_weight=sample_weight, split_select_weights=split_select_weights,
                        always_split_features=always_split_features, categorical_features=categorical_features)
+        self.d = X.shape[1]
+        self.check_is_explain = False
 
     def fit_global_rules(self, X, y, rules, rules_s_star):
         # TODO: think about removing s_star ? add complexity ?
-- 
2.43.0


From a512f1d316b257c6e2f044478bf6b08bbcf6b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 27/58] fix: a global rule without training observations does
 not hide the other rules

---
 acv_explainers/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index f7d7aee..66419e5 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -987,9 +987,9 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_rule.append(rule)
                 y_S.append(S[i])
 
-        y_weights = np.array(y_weights)
-        # only the rules with enough coverage can be chosen
-        covered = np.where(np.array(y_coverage) >= min_cov)[0]
+        y_weights = np.array(y_weights, dtype=float)
+        # only the rules with enough coverage can be chosen, and not the ones without any training observation (nan)
+        covered = np.where((np.array(y_coverage) >= min_cov) & ~np.isnan(y_weights))[0]
         if len(covered) != 0 and np.max(y_weights[covered]) >= min_acc:
             best_acc = covered[np.argmax(y_weights[covered])]
 
@@ -1022,9 +1022,9 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_rule.append(rule)
                 y_S.append(S[i])
 
-        y_weights = np.array(y_weights)
-        # only the rules with enough coverage can be chosen
-        covered = np.where(np.array(y_coverage) >= min_cov)[0]
+        y_weights = np.array(y_weights, dtype=float)
+        # only the rules with enough coverage can be chosen, and not the ones without any training observation (nan)
+        covered = np.where((np.array(y_coverage) >= min_cov) & ~np.isnan(y_weights))[0]
         if len(covered) != 0 and np.min(y_weights[covered]) <= min_mse:
             best_acc = covered[np.argmin(y_weights[covered])]
 
-- 
2.43.0


From 20f23f10d41930af6bd3badacc808a338348a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 28/58] fix: sampled regional counterfactuals are judged with
 the interval of their rule

---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 7fbd5ef..c344347 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -295,7 +295,7 @@ class CR:
                         self.dist_regional[-1].reshape(1, -1)) != self.acv_explainer.predict(xi.reshape(1, -1)))
                 else:
                     self.errs_regional.append(
-                        down[i] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[i])
+                        down[best_id] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[best_id])
 
                 if self.model != None:
                     self.errs_regional_original.append(self.model.predict(
-- 
2.43.0


From e12cfedb4e65d109cfa93697a66e94426fd91916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 29/58] fix: an interrupted sampling does not leave an unfitted
 outlier score behind

---
 acv_explainers/counterfactual_rules.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index c344347..fa5945a 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -110,8 +110,9 @@ class CR:
             up = np.zeros(shape=(x.shape[0]))
 
         print('### Sampling using the local counterfactual rules of (x, y)')
-        self.isolation = IsolationForest()
-        self.isolation.fit(self.x_train)
+        isolation = IsolationForest()
+        isolation.fit(self.x_train)
+        self.isolation = isolation
         outlier_score = lambda x: self.isolation.decision_function(x)
 
         self.dist_local = []
@@ -212,8 +213,9 @@ class CR:
     def check_isolation(self):
         # the outlier score of the sampling: fitted once, by whichever sampling comes first
         if self.isolation is None:
-            self.isolation = IsolationForest()
-            self.isolation.fit(self.x_train)
+            isolation = IsolationForest()
+            isolation.fit(self.x_train)
+            self.isolation = isolation
 
     def run_sampling_regional_counterfactuals(self, max_obs=2, batch=1000, max_iter=1000, temp=0.5):
         down = self.down_up[:, 0]
-- 
2.43.0


From fc76498c3548bb55f42a3b5a8816bc60a415ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 30/58] fix: a running app does not mix the files of two
 compilations

---
 acv_app/app.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index fb5db26..fa3206f 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -99,31 +99,24 @@ def main(LOAD_PATH):
     st.sidebar.title("Choose your explanations")
     persona = st.sidebar.radio("", list(PAGES.keys()))
 
-    @st.cache
-    def load_data():
+    # the data and the models together: what is shown comes from one compilation, even if another one takes place meanwhile
+    @st.cache(allow_output_mutation=True)
+    def load_bundle():
         x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'), float_precision='round_trip')
         y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv'), float_precision='round_trip').values.squeeze(axis=1)
         x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'), float_precision='round_trip')
         y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv'), float_precision='round_trip').values.squeeze(axis=1)
-        return x_train, x_test, y_train, y_test
+        acvtree_agnostic = load(os.path.join(LOAD_PATH, 'acvtree_agnostic.joblib'))
+        acvtree = load(os.path.join(LOAD_PATH, 'acvtree.joblib'))
+        return x_train, x_test, y_train, y_test, acvtree, acvtree_agnostic
 
     # data_load_state = st.sidebar.text('Loading data...')
-    x_train, x_test, y_train, y_test = load_data()
-
+    x_train, x_test, y_train, y_test, acvtree_shap, acvtree = load_bundle()
     # data_load_state.text("Load data Done !")
 
-    @st.cache(allow_output_mutation=True)
-    def load_model():
-        acvtree = load(os.path.join(LOAD_PATH, 'acvtree_agnostic.joblib'))
-        return acvtree
-
-    # model_load_state = st.sidebar.text('Loading model...')
-    acvtree = load_model()
-    # model_load_state.text("Load model Done!")
-
     if persona == 'Shapley based Explanations':
         st.title('Local Explanations based on Shapley values ')
-        acvtree = load(os.path.join(LOAD_PATH, 'acvtree.joblib'))
+        acvtree = acvtree_shap
     else:
         st.title('Consistent Local Explanations based on SDP ')
 
-- 
2.43.0


From dcc231af145cefbd26d0da712454f2284a53197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 31/58] fix: hand out copies of the fitted global rules

---
 acv_explainers/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 66419e5..3b321e7 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -984,8 +984,8 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_out.append(rules_output[i])
                 y_coverage.append(rules_coverage[i])
                 y_weights.append(rules_acc[i])
-                y_rule.append(rule)
-                y_S.append(S[i])
+                y_rule.append(rule.copy())
+                y_S.append(list(S[i]))
 
         y_weights = np.array(y_weights, dtype=float)
         # only the rules with enough coverage can be chosen, and not the ones without any training observation (nan)
@@ -1019,8 +1019,8 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_out.append(rules_output[i])
                 y_coverage.append(rules_coverage[i])
                 y_weights.append(rules_acc[i])
-                y_rule.append(rule)
-                y_S.append(S[i])
+                y_rule.append(rule.copy())
+                y_S.append(list(S[i]))
 
         y_weights = np.array(y_weights, dtype=float)
         # only the rules with enough coverage can be chosen, and not the ones without any training observation (nan)
@@ -1097,7 +1097,7 @@ def unique_rules_s_star(rules, rules_output):
         rule = rules_unique[i]
         for j in range(rules.shape[0]):
             if np.array_equal(rule, rules[j]):
-                rules_unique_output.append(rules_output[j])
+                rules_unique_output.append(list(rules_output[j]))
                 break
     return rules_unique, rules_unique_output
 
-- 
2.43.0


From 99c6a2cec788bb95a511e0fe9cd2228d9375fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 32/58] fix: use the trees of the best iteration of an xgboost
 model

---
 acv_explainers/base_tree.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 50e5314..104a985 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -342,9 +342,13 @@ class BaseTree:
             self.base_offset = xgb_loader.base_score
             self.objective = objective_name_map.get(xgb_loader.name_obj, None)
             self.tree_output = tree_output_name_map.get(xgb_loader.name_obj, None)
-            self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+            # the model answers with the trees of its best iteration: the ones grown after an early stopping are not part of it
+            self.tree_limit = getattr(model, "best_ntree_limit", None)
+            if self.tree_limit is not None:
+                self.trees = self.trees[:self.tree_limit * self.num_stacked_models]
+                self.tree_limit = len(self.trees)
             if self.model_output == "predict_proba":
                 if self.num_stacked_models == 1:
                     self.model_output = "probability_doubled"  # with predict_proba we need to double the outputs to match
@@ -360,9 +364,13 @@ class BaseTree:
             self.base_offset = xgb_loader.base_score
             self.objective = objective_name_map.get(xgb_loader.name_obj, None)
             self.tree_output = tree_output_name_map.get(xgb_loader.name_obj, None)
-            self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+            # the model answers with the trees of its best iteration: the ones grown after an early stopping are not part of it
+            self.tree_limit = getattr(model, "best_ntree_limit", None)
+            if self.tree_limit is not None:
+                self.trees = self.trees[:self.tree_limit * self.num_stacked_models]
+                self.tree_limit = len(self.trees)
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBRanker"):
             import xgboost
@@ -373,9 +381,13 @@ class BaseTree:
             self.base_offset = xgb_loader.base_score
             # Note: for ranker, leaving tree_output and objective as None as they
             # are not implemented in native code yet
-            self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+            # the model answers with the trees of its best iteration: the ones grown after an early stopping are not part of it
+            self.tree_limit = getattr(model, "best_ntree_limit", None)
+            if self.tree_limit is not None:
+                self.trees = self.trees[:self.tree_limit * self.num_stacked_models]
+                self.tree_limit = len(self.trees)
             # self.scaling = 1
         elif safe_isinstance(model, "lightgbm.basic.Booster"):
             assert_import("lightgbm")
-- 
2.43.0


From 493fc3b2c1a19aa2f443593b1d95eb3733e7c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 33/58] fix: the exponential loss models half the log odds

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 104a985..f2e24e9 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -281,6 +281,8 @@ class BaseTree:
             elif safe_isinstance(model.init_, "sklearn.dummy.DummyClassifier"):
                 self.base_offset = scipy.special.logit(model.init_.class_prior_[
                                                            1])  # with two classes the trees only model the second class. # pylint: disable=no-member
+                if model.loss == "exponential":
+                    self.base_offset = self.base_offset / 2  # this loss models half the log odds
                 self.tree_output = "log_odds"
             else:
                 assert False, "Unsupported init model type: " + str(type(model.init_))
-- 
2.43.0


From adea5a4ef1feffbed8591657fda8c5a658fe6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 34/58] fix: isolation forests with fewer features than the
 mark of a leaf

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index f2e24e9..293ffb0 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1194,7 +1194,7 @@ class IsoTree(SingleTree):
                 self.values = (self.values.T / self.values.sum(1)).T
             self.values = self.values * scaling
             # re-number the features if each tree gets a different set of features
-            self.features = np.where(self.features >= 0, tree_features[self.features], self.features)
+            self.features = np.where(self.features >= 0, tree_features[np.maximum(self.features, 0)], self.features)
 
 
 def get_xgboost_json(model):
-- 
2.43.0


From 7cc2a170f095c3cebae1d82d91c213a9c8abf16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 35/58] fix: remove the header of an xgboost model, not any of
 its letters

---
 acv_explainers/base_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 293ffb0..0c5f149 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1221,7 +1221,9 @@ class XGBTreeModelLoader(object):
 
     def __init__(self, xgb_model):
         # new in XGBoost 1.1, 'binf' is appended to the buffer
-        self.buf = xgb_model.save_raw().lstrip(b'binf')
+        self.buf = bytes(xgb_model.save_raw())
+        if self.buf.startswith(b'binf'):
+            self.buf = self.buf[len(b'binf'):]
         self.pos = 0
 
         # load the model parameters
-- 
2.43.0


From 9912efc5e538b59b0b8a0fd2ce0d0662c5d98a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 36/58] fix: xgboost models with several parallel trees and
 several classes

---
 acv_explainers/base_tree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 0c5f149..c1fd8e1 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1308,6 +1308,9 @@ class XGBTreeModelLoader(object):
                 self.base_weight[-1][j] = self.read('f')
                 self.leaf_child_cnt[-1][j] = self.read('i')
 
+        # the output (class) that each tree contributes to
+        self.tree_info = [self.read('i') for _ in range(self.num_trees)]
+
     def get_trees(self, data=None, data_missing=None):
         shape = (self.num_trees, self.num_nodes.max())
         self.children_default = np.zeros(shape, dtype=np.int)
@@ -1339,6 +1342,11 @@ class XGBTreeModelLoader(object):
                 "value": self.values[i, :l],
                 "node_sample_weight": self.sum_hess[i]
             }, data=data, data_missing=data_missing))
+
+        if self.num_class > 1:
+            # one tree of each class in turn (with num_parallel_tree > 1, the trees of a class follow each other in the file)
+            by_class = [[t for t, k in zip(trees, self.tree_info) if k == c] for c in range(self.num_class)]
+            trees = [t for group in zip(*by_class) for t in group]
         return trees
 
     def read(self, dtype):
-- 
2.43.0


From 3e39095cc149ba73e3148abddb8126dcd2f0b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 37/58] fix: swing values: test the normalisation that divides

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 12 ++++++------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index a094b69..2ac166d 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2418,9 +2418,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -2451,9 +2451,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 26a8d1d..9996058 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3391,9 +3391,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -3424,9 +3424,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
-- 
2.43.0


From e507498f7ea243cca36d920921b42ae533d7652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 38/58] fix: swing values: leaves away from the feature that
 arrives belong to the set without it

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 --
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 --
 2 files changed, 4 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 2ac166d..2caecda 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2309,8 +2309,6 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 9996058..95f7cad 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3282,8 +3282,6 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
-- 
2.43.0


From 32536df66aab3b36d3cd47c42f08df6444b7d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 39/58] fix: swing values: one rule for points on a threshold

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 4 ++--
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 2caecda..e9cc7fc 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2303,7 +2303,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                 else:
                     nv_bool = 0
                     for nv in range(len_va_id[va]):
-                        if (X[i, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (X[i, va_id[va, nv]] <= partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
+                        if (X[i, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (X[i, va_id[va, nv]] < partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
                             nv_bool = nv_bool + 1
                             continue
 
@@ -2348,7 +2348,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
 
                         nv_bool = 0
                         for nv in range(len_va_id[va]):
-                            if (data[j, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (data[j, va_id[va, nv]] <= partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
+                            if (data[j, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (data[j, va_id[va, nv]] < partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
                                 nv_bool = nv_bool + 1
                                 continue
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 95f7cad..501693b 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3276,7 +3276,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                 else:
                     nv_bool = 0
                     for nv in range(len_va_id[va]):
-                        if (X[i, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (X[i, va_id[va, nv]] <= partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
+                        if (X[i, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (X[i, va_id[va, nv]] < partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
                             nv_bool = nv_bool + 1
                             continue
 
@@ -3321,7 +3321,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
 
                         nv_bool = 0
                         for nv in range(len_va_id[va]):
-                            if (data[j, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (data[j, va_id[va, nv]] <= partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
+                            if (data[j, va_id[va, nv]] >  partition_leaves_trees[b, leaf_numb, va_id[va, nv], 1]) or (data[j, va_id[va, nv]] < partition_leaves_trees[b, leaf_numb, va_id[va, nv], 0]):
                                 nv_bool = nv_bool + 1
                                 continue
 
-- 
2.43.0


From c8c579f843b1907b0cd95ed6cb825ff118c762ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 40/58] fix: swing values when all features are one group

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 ++
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index e9cc7fc..850b20e 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2453,6 +2453,8 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
                     ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m:
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 501693b..0891506 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3426,6 +3426,8 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
                     ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m:
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
-- 
2.43.0


From 8bdbaedcbc05b69231bd88071ca9f326d156945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 41/58] fix: clear the entries left over from a larger
 coalition in the marginal explanations

---
 acv_explainers/utils_sdp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 822912d..30ff594 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -466,6 +466,9 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
 
+                for s in range(len_s_star[R_buf[i]], X.shape[1]):  # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
+
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
                 r.append(R[i])
@@ -585,6 +588,9 @@ def importance_msdp_reg_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
 
+                for s in range(len_s_star[R_buf[i]], X.shape[1]):  # to filter (important for coalition)
+                    s_star[R_buf[i], s] = -1
+
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
                 r.append(R[i])
-- 
2.43.0


From 3c05f798a3a74f20ad5b226314abfeeae732c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 42/58] fix: give the forest kernels decision intervals from
 ACVTree, as ACXplainer does

---
 acv_explainers/acv_tree.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index f1cbb60..06e61dd 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -838,6 +838,19 @@ class ACVTree(BaseTree):
                                             quantile=quantile)
         return exp
 
+    @staticmethod
+    def same_decision_bounds(y, classifier, t):
+        """
+        The interval in which an output is the same decision as y, for each sample. In regression, t is the level of
+        variation around y or the intervals themselves (# samples x 2); it is not used in classification.
+        """
+        if classifier:
+            return np.zeros(shape=(y.shape[0], 2))
+        t = np.asarray(t, dtype=np.double)
+        if t.ndim == 2:
+            return t
+        return np.stack([y - t, y + t], axis=1)
+
     def compute_sdp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         """
          Estimate the Same Decision Probability (SDP) of a set of samples X given subset S using the consistent estimator
@@ -866,6 +879,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self.same_decision_bounds(y, classifier, t)
         try:
             check_consistent_length(X, S)
         except ValueError as exp:
@@ -906,6 +920,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = np.array(np.broadcast_to(np.asarray(t, dtype=np.double), y.shape))
         try:
             check_consistent_length(X, S)
         except ValueError as exp:
@@ -968,6 +983,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self.same_decision_bounds(y, classifier, t)
 
         if X.shape[1] > 10:
             try:
@@ -1032,6 +1048,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self.same_decision_bounds(y, classifier, t)
         if X.shape[1] > 10:
 
             try:
@@ -1080,6 +1097,7 @@ class ACVTree(BaseTree):
         X, y = check_X_y(X, y, dtype=np.double)
         data, y_data = check_X_y(data, y_data, dtype=np.double)
         y, y_data = as_float_array(y).astype(np.double), as_float_array(y_data).astype(np.double)
+        t = self.same_decision_bounds(y, classifier, t)
         try:
             check_consistent_length(X, S)
         except ValueError as exp:
-- 
2.43.0


From 14c65351c3ae2d55eeb7bd028ac63190d5d5635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 43/58] fix: search space of ACVTree.importance_sdp_rf when the
 model has no feature importances

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 06e61dd..27446d7 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -990,7 +990,7 @@ class ACVTree(BaseTree):
                 feature_importance = -np.array(self.model.feature_importances_)
                 search_space = list(np.argsort(feature_importance))
             except AttributeError:
-                flat_list = [item for t in self.ACXplainer.node_idx_trees for sublist in t for item in sublist]
+                flat_list = [item for t in self.node_idx_trees for sublist in t for item in sublist]
                 node_idx = pd.Series(flat_list)
                 search_space = []
                 for v in (node_idx.value_counts().keys()):
-- 
2.43.0


From bcebb8bbb540dbe5cc6a1f23d7c7a49eaf7476b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 44/58] fix: drop the placeholder from the explanations of
 ACVTree.sufficient_expl_rf

---
 acv_explainers/acv_tree.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 27446d7..fa5e97e 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -1062,12 +1062,16 @@ class ACVTree(BaseTree):
                     search_space += [v]
         else:
             search_space = [i for i in range(X.shape[1])]
-        # TODO: Remove the [-1] in the Sufficent Coal
-        return cyext_acv.sufficient_expl_rf(X, y, data, y_data, self.features, self.thresholds,
-                                            self.children_left,
-                                            self.children_right, self.max_depth, min_node_size,
-                                            classifier, t, C,
-                                            pi_level, minimal, stop, search_space[:10])
+        sufficient_coal, sdp_coal, sdp_global = cyext_acv.sufficient_expl_rf(X, y, data, y_data, self.features,
+                                                                             self.thresholds,
+                                                                             self.children_left,
+                                                                             self.children_right, self.max_depth,
+                                                                             min_node_size,
+                                                                             classifier, t, C,
+                                                                             pi_level, minimal, stop,
+                                                                             search_space[:10])
+        # the first entry of each observation is a placeholder
+        return [coal[1:] for coal in sufficient_coal], [sdp[1:] for sdp in sdp_coal], sdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         """
-- 
2.43.0


From ed66a5fa76a61827a652541106b84c736b344c6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 45/58] fix: base score of xgboost models with a logarithmic
 link

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index c1fd8e1..06b7f1b 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1244,6 +1244,8 @@ class XGBTreeModelLoader(object):
         if LooseVersion(xgboost.__version__).version[0] >= 1:
             if self.name_obj in ["binary:logistic", "reg:logistic"]:
                 self.base_score = scipy.special.logit(self.base_score)  # pylint: disable=no-member
+            elif self.name_obj in ["count:poisson", "reg:gamma", "reg:tweedie", "survival:cox", "survival:aft"]:
+                self.base_score = np.log(self.base_score)
 
         assert self.name_gbm == "gbtree", "Only the 'gbtree' model type is supported, not '%s'!" % self.name_gbm
 
-- 
2.43.0


From 877125c02e1970953abb9198141587521c90b58b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 46/58] fix: predict compares the observations as single
 precision numbers for every xgboost model and isolation forest, as they do

---
 acv_explainers/base_tree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 06b7f1b..ca3cfce 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -97,14 +97,14 @@ class BaseTree:
             self.objective = objective_name_map.get(model.criterion, None)
             self.tree_output = "raw_value"
         elif safe_isinstance(model, ["sklearn.ensemble.IsolationForest", "sklearn.ensemble._iforest.IsolationForest"]):
-            self.dtype = np.float32
+            self.input_dtype = np.float32
             scaling = 1.0 / len(model.estimators_)  # output is average of trees
             # self.scaling = scaling
             self.trees = [IsoTree(e.tree_, f, scaling=scaling, data=data, data_missing=data_missing) for e, f in
                           zip(model.estimators_, model.estimators_features_)]
             self.tree_output = "raw_value"
         elif safe_isinstance(model, ["pyod.models.iforest.IForest"]):
-            self.dtype = np.float32
+            self.input_dtype = np.float32
             scaling = 1.0 / len(model.estimators_)  # output is average of trees
             # self.scaling = scaling
             self.trees = [IsoTree(e.tree_, f, scaling=scaling, data=data, data_missing=data_missing) for e, f in
@@ -324,6 +324,7 @@ class BaseTree:
                 assert False, "Unsupported Spark model type: " + str(type(model))
         elif safe_isinstance(model, "xgboost.core.Booster"):
             import xgboost
+            self.input_dtype = np.float32
             self.original_model = model
             self.model_type = "xgboost"
             xgb_loader = XGBTreeModelLoader(self.original_model)
@@ -359,6 +360,7 @@ class BaseTree:
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBRegressor"):
             import xgboost
+            self.input_dtype = np.float32
             self.original_model = model.get_booster()
             self.model_type = "xgboost"
             xgb_loader = XGBTreeModelLoader(self.original_model)
@@ -376,6 +378,7 @@ class BaseTree:
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBRanker"):
             import xgboost
+            self.input_dtype = np.float32
             self.original_model = model.get_booster()
             self.model_type = "xgboost"
             xgb_loader = XGBTreeModelLoader(self.original_model)
-- 
2.43.0


From 8ac7072f4840ce67a56bdf50d84a133f83b99f53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 47/58] fix: refuse models with categorical splits instead of
 reading them as thresholds

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index ca3cfce..88d25ba 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -219,6 +219,7 @@ class BaseTree:
             self.trees = []
             for p in model._predictors:
                 nodes = p[0].nodes
+                assert "is_categorical" not in nodes.dtype.names or not nodes["is_categorical"].any(), "Categorical splits are not supported!"
                 # each node has values: ('value', 'count', 'feature_idx', 'threshold', 'missing_go_to_left', 'left', 'right', 'gain', 'depth', 'is_leaf', 'bin_threshold')
                 tree = {
                     "children_left": np.array([-1 if n[9] else n[5] for n in nodes]),
@@ -250,6 +251,7 @@ class BaseTree:
             for p in model._predictors:
                 for i in range(self.num_stacked_models):
                     nodes = p[i].nodes
+                    assert "is_categorical" not in nodes.dtype.names or not nodes["is_categorical"].any(), "Categorical splits are not supported!"
                     # each node has values: ('value', 'count', 'feature_idx', 'threshold', 'missing_go_to_left', 'left', 'right', 'gain', 'depth', 'is_leaf', 'bin_threshold')
                     tree = {
                         "children_left": np.array([-1 if n[9] else n[5] for n in nodes]),
-- 
2.43.0


From c14b5f936da35523102f0011dc73d93b03332d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 48/58] fix: the quantiles of the projected forest no longer
 follow the children of leaves

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 850b20e..6f872de 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4359,6 +4359,8 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
                 s = 0
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4453,6 +4455,8 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
-- 
2.43.0


From 4b52f05254ea2cf99cbbdf9e92426a67057e7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 49/58] fix: drop the placeholder from the explanations of
 ACVTreeAgnostic.sufficient_expl_rf

---
 acv_explainers/acv_tree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index fa5e97e..1a993c7 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -1305,10 +1305,14 @@ class ACVTreeAgnostic(BaseTree):
         else:
             search_space = [i for i in range(x.shape[1])]
 
-        sdp = cyext_acv.sufficient_expl_rf(x, y, data, y_data, self.features, self.thresholds, self.children_left,
-                                           self.children_right, self.max_depth, min_node_size, classifier, t, C,
-                                           pi_level, minimal, stop, search_space[:10])
-        return sdp
+        sufficient_coal, sdp_coal, sdp_global = cyext_acv.sufficient_expl_rf(x, y, data, y_data, self.features,
+                                                                             self.thresholds, self.children_left,
+                                                                             self.children_right, self.max_depth,
+                                                                             min_node_size, classifier, t, C,
+                                                                             pi_level, minimal, stop,
+                                                                             search_space[:10])
+        # the first entry of each observation is a placeholder
+        return [coal[1:] for coal in sufficient_coal], [sdp[1:] for sdp in sdp_coal], sdp_global
 
     def compute_local_sdp(d, sufficient_coal):
         flat = [item for sublist in sufficient_coal for item in sublist]
-- 
2.43.0


From 2366103a87f1ad5c0f40ee3bde51277131e396f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 50/58] fix: refuse ranger forests with splits on categories
 instead of reading them as thresholds

---
 acv_explainers/base_agnostree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 0bf95bc..1d1740c 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -12,6 +12,12 @@ from .utils import rebuild_tree
 from distutils.version import LooseVersion
 
 
+def has_ordered_splits(model):
+    # the thresholds of an unordered feature are sets of categories
+    forest = getattr(model, "ranger_forest_", {}).get("forest", {})
+    return all(forest.get("is_ordered", []))
+
+
 # This is based on https://github.com/slundberg/shap/blob/master/shap/explainers/_tree.py
 class BaseAgnosTree:
     """ An ensemble of decision trees.
@@ -44,6 +50,7 @@ class BaseAgnosTree:
 
         if safe_isinstance(model, ["skranger.ensemble.classifier.RangerForestClassifier"]):
             assert hasattr(model, "estimators_"), "Model has no `estimators_`! Have you called `model.fit`?"
+            assert has_ordered_splits(model), "Categorical splits are not supported!"
             self.internal_dtype = model.estimators_[0].tree_.value.dtype.type
             self.input_dtype = np.float32
             scaling = 1.0 / len(model.estimators_)  # output is average of trees
@@ -54,6 +61,7 @@ class BaseAgnosTree:
 
         elif safe_isinstance(model, ["skranger.ensemble.regressor.RangerForestRegressor"]):
             assert hasattr(model, "estimators_"), "Model has no `estimators_`! Have you called `model.fit`?"
+            assert has_ordered_splits(model), "Categorical splits are not supported!"
             self.internal_dtype = model.estimators_[0].tree_.value.dtype.type
             self.input_dtype = np.float32
             scaling = 1.0 / len(model.estimators_)  # output is average of trees
-- 
2.43.0


From bfb9000e2d5014b8e87f49df45277bcdf38fa9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 51/58] fix: the rule of an explanation without features covers
 every row

---
 acv_explainers/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 3b321e7..cc4c9f9 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1050,8 +1050,9 @@ def compute_rules_metrics(rules, data, y_data, S_star, classifier=True):
     for idx in range(rules.shape[0]):
         S = S_star[idx]
         rule = rules[idx]
-        where = np.prod([(data[:, s] <= rule[s, 1]) * (data[:, s] >= rule[s, 0])
-                         for s in S], axis=0).astype(bool)
+        where = np.ones(data.shape[0], dtype=bool)  # every row is in the rule of an explanation without features
+        for s in S:
+            where &= (data[:, s] <= rule[s, 1]) & (data[:, s] >= rule[s, 0])
         if classifier:
             rules_output.append(1 * (np.mean(y_data[where]) > 0.5))
             rules_output_proba.append((np.mean(y_data[where])))
-- 
2.43.0


From 2faf087f9b20a5dcf3f59315b8bd2c84a313d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 52/58] fix: sequential SDP and swing values of the binary
 boosting models read the probabilities of the classes, not the log odds

---
 acv_explainers/acv_tree.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 1a993c7..ce1dd79 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -405,6 +405,13 @@ class ACVTree(BaseTree):
                                                             self.max_var,
                                                             self.node_idx_trees, C, num_threads)
 
+    def _values_of_classes(self):
+        """
+                The values of the trees with one column per class: the trees of the binary boosting models have only one
+                output (the log odds)
+        """
+        return getattr(self, 'values_binary', self.values)
+
     def importance_sdp_clf_nopa(self, X, data, C=[[]], pi_level=0.9, minimal=0):
         """
                 Same as importance_sdp_clf, but does not use parallelism
@@ -413,7 +420,7 @@ class ACVTree(BaseTree):
         data = check_array(data, dtype=[np.double])
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self.values,
+        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self._values_of_classes(),
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
 
@@ -426,7 +433,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._values_of_classes(),
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -438,7 +445,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._values_of_classes(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -569,7 +576,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self._values_of_classes(),
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, C, thresholds,
                                              num_threads)
@@ -577,7 +584,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_nopa(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self._values_of_classes(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
                                                        thresholds, num_threads)
@@ -591,7 +598,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_slow(self, X, data, C=[[]], thresholds=0.9, num_threads=5):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self._values_of_classes(),
                                       self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                       C, thresholds, num_threads)
 
-- 
2.43.0


From 9a16251ff37f178d73b160886a044c7ecd500bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 53/58] fix: ACVTree.compute_exp_normalized_nopa calls the
 function that exists

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index ce1dd79..c7bfc95 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -652,7 +652,7 @@ class ACVTree(BaseTree):
                                                 num_threads)
 
     def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
-        return cyext_acv.compute_exp_normalized_nopa(np.array(X, dtype=np.float), S, data, self.values,
+        return cyext_acv_nopa.compute_exp_normalized(np.array(X, dtype=np.float), S, data, self.values,
                                                      self.partition_leaves_trees,
                                                      self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                                      num_threads)
-- 
2.43.0


From 0ca70d8269931f1fc51b57e5681f665f5f96a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 54/58] fix: the active Shapley values are zero, not undefined,
 for an observation without active features

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 4 ++--
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 6f872de..5e78ed3 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2015,7 +2015,7 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                         phi[i, j, i2] += phi_n[leaf_numb, i, j, i2]
                         for counter in range(phi_b.shape[1]):
                             phi[i, j, i2] += phi_b[leaf_numb, counter, i, j, i2]
-    return np.asarray(phi)/m
+    return np.asarray(phi)/m if m != 0 else np.asarray(phi)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -3560,7 +3560,7 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                     for counter in range(phi_b.shape[1]):
                         phi[j, i2] += phi_b[leaf_numb, counter, j, i2]
 
-    return np.asarray(phi)/m
+    return np.asarray(phi)/m if m != 0 else np.asarray(phi)
 
 
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0891506..f895901 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1942,7 +1942,7 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                                 for i2 in range(d):
                                     phi[i, va_id[va][nv], i2] += (p_si-p_off)*values[b, leaf_idx_trees[b, leaf_numb], i2] + coef * (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
 
-    return np.asarray(phi)/m
+    return np.asarray(phi)/m if m != 0 else np.asarray(phi)
 
 
 @cython.boundscheck(False)
@@ -2254,7 +2254,7 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                     for counter in range(phi_b.shape[1]):
                         phi[j, i2] += phi_b[leaf_numb, counter, j, i2]
 
-    return np.asarray(phi)/m
+    return np.asarray(phi)/m if m != 0 else np.asarray(phi)
 
 
 
-- 
2.43.0


From be597d0bb44cdfea5155b1f4b1c142b52b3ffd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 55/58] fix: the pages of the app only offer observations that
 exist

---
 acv_app/sdp_app.py | 2 +-
 acv_app/sv_app.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_app/sdp_app.py b/acv_app/sdp_app.py
index 8c7d940..a16f716 100644
--- a/acv_app/sdp_app.py
+++ b/acv_app/sdp_app.py
@@ -41,7 +41,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
 
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(nb))
+        list(range(min(nb, x_test.shape[0])))
     )
 
     @st.cache(allow_output_mutation=True)
diff --git a/acv_app/sv_app.py b/acv_app/sv_app.py
index 9d80176..0f084f8 100644
--- a/acv_app/sv_app.py
+++ b/acv_app/sv_app.py
@@ -12,7 +12,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
         return acvtree.ACXplainer.shap_values(x_test.values.astype(np.double)[:100], x_train.values.astype(np.double))
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(x_test.shape[0]))
+        list(range(min(100, x_test.shape[0])))
     )
 
     col1, col2 = st.columns(2)
-- 
2.43.0


From 489cbfc205bd112ef9b62fd3400274a17da8cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 56/58] fix: ACXplainer accepts the scalar target interval it
 documents, and its bounds per observation

---
 acv_explainers/acv_agnosticX.py | 137 ++++++++++----------------------
 1 file changed, 40 insertions(+), 97 deletions(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 99ac8e1..45f4548 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -225,6 +225,21 @@ class ACXplainer:
             self.ACXplainer = BaseAgnosTree(self.model, self.d)
             self.check_is_explain = True
 
+    def same_decision_bounds(self, X, y, t):
+        """
+        The interval in which an output is the same decision as y, for each sample. In regression, t is the level of
+        variation around y, or the intervals themselves (# samples x 2), by default the quantiles of the model; it is not
+        used in classification.
+        """
+        if self.classifier:
+            return np.zeros(shape=(X.shape[0], 2))
+        if t is None:
+            return self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
+        t = np.asarray(t, dtype=np.double)
+        if t.ndim == 2:
+            return t
+        return np.stack([y - t, y + t], axis=1)
+
     def compute_sdp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
          Estimate the Same Decision Probability (SDP) of a set of samples X given subset S using the consistent estimator
@@ -260,10 +275,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
 
         sdp = cyext_acv.compute_sdp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
@@ -308,10 +320,7 @@ class ACXplainer:
 
         self.check_is_explainer()
 
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         sdp, rules = cyext_acv.compute_sdp_rule(X, y, data, y_data, S, self.ACXplainer.features,
                                                 self.ACXplainer.thresholds,
                                                 self.ACXplainer.children_left,
@@ -371,10 +380,7 @@ class ACXplainer:
 
         self.check_is_explainer()
 
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
 
         if not verbose:
             sdp, rules, sdp_all, rules_data, w = cyext_acv.compute_sdp_maxrule(X, y, data, y_data, S,
@@ -451,10 +457,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp = cyext_acv.compute_ddp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -497,10 +500,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp, rules = cyext_acv.compute_ddp_rule(X, y, data, y_data, S, self.ACXplainer.features,
                                                 self.ACXplainer.thresholds,
                                                 self.ACXplainer.children_left,
@@ -549,10 +549,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         if not verbose:
             ddp, w = cyext_acv.compute_ddp_weights(X, y, data, y_data, S,
                                                    self.ACXplainer.features,
@@ -610,10 +607,7 @@ class ACXplainer:
             check_consistent_length(X, S)
         except ValueError as exp:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         self.check_is_explainer()
 
         ddp, w = cyext_acv.compute_cdp_cond_weights(X, y, down, up, data, y_data, S,
@@ -663,10 +657,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp = cyext_acv.compute_cdp_rf(X, y, down, up, data, y_data, S, self.ACXplainer.features,
                                        self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
@@ -710,10 +701,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp, rules = cyext_acv.compute_cdp_rule(X, y, down, up, data, y_data, S, self.ACXplainer.features,
                                                 self.ACXplainer.thresholds,
                                                 self.ACXplainer.children_left,
@@ -762,10 +750,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         if not verbose:
             ddp, w = cyext_acv.compute_cdp_weights(X, y, down, up, data, y_data, S,
                                                    self.ACXplainer.features,
@@ -825,10 +810,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp, w = cyext_acv.compute_ddp_cond_weights(X, y, data, y_data, S,
                                                     self.ACXplainer.features,
                                                     self.ACXplainer.thresholds,
@@ -906,10 +888,7 @@ class ACXplainer:
         else:
             search_space = [i for i in range(X.shape[1])]
 
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
 
         return cyext_acv.global_sdp_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
@@ -981,10 +960,7 @@ class ACXplainer:
             #     search_space += [v]
         else:
             search_space = [i for i in range(X.shape[1])]
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         return cyext_acv.global_ddp_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1054,10 +1030,7 @@ class ACXplainer:
             #     search_space += [v]
         else:
             search_space = [i for i in range(X.shape[1])]
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
 
         return cyext_acv.global_cdp_rf(X, y, down, up, data, y_data, self.ACXplainer.features,
                                        self.ACXplainer.thresholds,
@@ -1124,10 +1097,7 @@ class ACXplainer:
             search_space = [i for i in range(X.shape[1])]
         # TODO: Remove the [-1] in the Sufficent Coal
 
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         sufficient_expl, sdp_expl, sdp_global = cyext_acv.sufficient_expl_rf(X, y, data, y_data,
                                                                              self.ACXplainer.features,
                                                                              self.ACXplainer.thresholds,
@@ -1199,10 +1169,7 @@ class ACXplainer:
             search_space = [i for i in range(X.shape[1])]
         # TODO: Remove the [-1] in the Sufficent Coal
         # TODO: Check S_bar_set for this function
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         c_expl, cdp_expl, cdp_global = cyext_acv.sufficient_cxpl_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                             self.ACXplainer.children_left,
                                             self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1248,10 +1215,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         exp = cyext_acv.compute_exp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1278,7 +1242,7 @@ class ACXplainer:
 
             min_node_size (int): The minimal node size of the Projected Forest
 
-            t (float): not used here
+            t (float): where the P-CDF is evaluated, the same for all samples or one for each; by default at y
 
         Returns:
             exp (numpy.ndarray): A 1-D matrix (# samples), exp[i] contains the Conditional Expectation of observation i
@@ -1293,10 +1257,7 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = np.array(np.broadcast_to(np.asarray(y if t is None else t, dtype=np.double), y.shape))
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
@@ -1447,10 +1408,7 @@ class ACXplainer:
 
         self.check_is_explainer()
 
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp, w = cyext_acv.compute_ddp_intv_weights(X, y, data, y_data, S,
                                                     self.ACXplainer.features,
                                                     self.ACXplainer.thresholds,
@@ -1501,10 +1459,7 @@ class ACXplainer:
         #     raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp = cyext_acv.compute_ddp_intv_same_set(X, y, data, y_data, S,
                                                   self.ACXplainer.features,
                                                   self.ACXplainer.thresholds,
@@ -1578,10 +1533,7 @@ class ACXplainer:
             #     search_space += [v]
         else:
             search_space = [i for i in range(X.shape[1])]
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         return cyext_acv.global_ddp_intv(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                          self.ACXplainer.children_left,
                                          self.ACXplainer.children_right, cond, self.ACXplainer.max_depth, min_node_size,
@@ -1628,10 +1580,7 @@ class ACXplainer:
 
         self.check_is_explainer()
 
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp, w = cyext_acv.compute_cdp_intv_weights(X, y, data, y_data, S,
                                                     self.ACXplainer.features,
                                                     self.ACXplainer.thresholds,
@@ -1682,10 +1631,7 @@ class ACXplainer:
         #     raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         ddp = cyext_acv.compute_cdp_intv_same_set(X, y, data, y_data, S,
                                                   self.ACXplainer.features,
                                                   self.ACXplainer.thresholds,
@@ -1759,10 +1705,7 @@ class ACXplainer:
             #     search_space += [v]
         else:
             search_space = [i for i in range(X.shape[1])]
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        t = self.same_decision_bounds(X, y, t)
         return cyext_acv.global_cdp_intv(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                          self.ACXplainer.children_left,
                                          self.ACXplainer.children_right, cond, self.ACXplainer.max_depth, min_node_size,
-- 
2.43.0


From dcd550909223f29572305d6da8fdb3af3fb6c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 57/58] fix: ACVTreeAgnostic works with its default and scalar
 target interval

---
 acv_explainers/acv_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index c7bfc95..f1da10c 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -1169,11 +1169,13 @@ class ACVTreeAgnostic(BaseTree):
                                           threshold=threshold, r_search_space=r_search_space, stop=stop)
 
     def compute_cdf_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        t = np.array(np.broadcast_to(np.asarray(t, dtype=np.double), y.shape))
         sdp = cyext_acv.compute_cdf_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return sdp
 
     def compute_sdp_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        t = ACVTree.same_decision_bounds(y, classifier, t)
         sdp = cyext_acv.compute_sdp_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return sdp
@@ -1184,6 +1186,7 @@ class ACVTreeAgnostic(BaseTree):
         return sdp
 
     def compute_sdp_rule(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        t = ACVTree.same_decision_bounds(y, classifier, t)
         sdp, rules = cyext_acv.compute_sdp_rule(x, y, data, y_data, S, self.features, self.thresholds,
                                                 self.children_left,
                                                 self.children_right, self.max_depth, min_node_size, classifier, t)
@@ -1203,6 +1206,7 @@ class ACVTreeAgnostic(BaseTree):
         return sdp, rules
 
     def compute_sdp_maxrules(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20, pi=0.95):
+        t = ACVTree.same_decision_bounds(y, classifier, t)
         sdp, rules, sdp_all, rules_data, w = cyext_acv.compute_sdp_maxrule(x, y, data, y_data, S, self.features,
                                                                            self.thresholds, self.children_left,
                                                                            self.children_right, self.max_depth,
@@ -1246,6 +1250,7 @@ class ACVTreeAgnostic(BaseTree):
 
     def importance_sdp_rf(self, x, y, data, y_data, min_node_size=5, classifier=1, t=20,
                           C=[[]], pi_level=0.9, minimal=1, stop=True):
+        t = ACVTree.same_decision_bounds(y, classifier, t)
 
         if x.shape[1] > 10:
 
@@ -1281,6 +1286,7 @@ class ACVTreeAgnostic(BaseTree):
         return sdp
 
     def compute_exp_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        t = ACVTree.same_decision_bounds(y, classifier, t)
         exp = cyext_acv.compute_exp_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return exp
@@ -1301,6 +1307,7 @@ class ACVTreeAgnostic(BaseTree):
 
     def sufficient_expl_rf(self, x, y, data, y_data, min_node_size=5, classifier=1, t=20,
                            C=[[]], pi_level=0.9, minimal=1, stop=True):
+        t = ACVTree.same_decision_bounds(y, classifier, t)
 
         if x.shape[1] > 10:
 
-- 
2.43.0


From 5b807924d88557166f29a63329ac824673692161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 58/58] fix: the SDP page uses the target interval it computes
 from the page's settings

---
 acv_app/sdp_app.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acv_app/sdp_app.py b/acv_app/sdp_app.py
index a16f716..13127f4 100644
--- a/acv_app/sdp_app.py
+++ b/acv_app/sdp_app.py
@@ -47,14 +47,14 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
     @st.cache(allow_output_mutation=True)
     def compute_sdp(nb, x_train, y_train, x_test, y_test, pi_level, t):
         sufficient_coal, sdp_coal, sdp_global = acvtree.sufficient_expl_rf(x_test[:nb], y_test[:nb], x_train, y_train,
-                                                                           stop=False, pi_level=pi_level)
+                                                                           stop=False, pi_level=pi_level, t=t)
 
         return sufficient_coal, sdp_coal, sdp_global
 
     @st.cache(allow_output_mutation=True)
     def compute_sdp_rule(obs, x_train_np, y_train_np, x_test_np, y_test_np, t, S):
         sdp, rules = acvtree.compute_sdp_rule(x_test_np[obs:obs+1], y_test_np[obs:obs+1],
-                                              x_train_np, y_train_np, S=[S])
+                                              x_train_np, y_train_np, S=[S], t=t)
         rule = rules[0]
         columns = [x_train.columns[i] for i in range(x_train.shape[1])]
         rule_string = ['{} <= {} <= {}'.format(rule[i, 0] if rule[i, 0] > -1e+10 else -np.inf, columns[i],
@@ -65,7 +65,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
     @st.cache(allow_output_mutation=True)
     def compute_sdp_maxrule(obs, x_train_np, y_train_np, x_test_np, y_test_np, t, S, pi):
         sdp, rules, sdp_all, rules_data, w = acvtree.compute_sdp_maxrules(x_test_np[obs:obs + 1], y_test_np[obs:obs + 1],
-                                              x_train_np, y_train_np, S=[S], pi_level=pi)
+                                              x_train_np, y_train_np, S=[S], pi_level=pi, t=t)
 
         # on a copy: the explainer is shared between the observations and the sessions
         acvtree_rule = copy.copy(acvtree)
-- 
2.43.0

