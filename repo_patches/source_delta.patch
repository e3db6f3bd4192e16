From 0da0498e47cc7ab94f3ffd1d90a1a10fa510d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:35 +0000
Subject: [PATCH 01/15] fix: overflow of the left end of the split range

In split_range the left end of the range took the small unsigned type of the
cutpoints (e.g. uint8 with the default numcut=255). With an ancestor splitting
at the last cutpoint, l + 1 wrapped around to 0 and the empty range looked like
a full one. Without a minimum leaf size the rule could be accepted, with a split
value of 0 corrupting the tree.
---
 src/bartz/mcmcstep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..2b1755c 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -642,7 +642,9 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     """
     max_num_ancestors = grove.tree_depth(var_tree) - 1
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
-    carry = 0, initial_r, node_index
+    carry = jnp.int32(0), initial_r, node_index
+        # explicit type because with a weak type `l` would become of the same
+        # type of `split`, and then `l + 1` could overflow
     def loop(carry, _):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
-- 
2.43.0


From 9a4090b3c6786db46c282e7f370df414ff5d033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:35 +0000
Subject: [PATCH 02/15] fix: do not modify the 'ratios' dictionary of the input
 state

The copy of the state is shallow, so updating the nested dictionary in place
changed the input state when a step is executed outside of jit.
---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 2b1755c..de63948 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1281,7 +1281,8 @@ def accept_moves_sequential_stage(bart, count_trees, moves, move_counts, prelkv,
 
     bart['resid'] = resid
     bart['leaf_trees'] = leaf_trees
-    bart.get('ratios', {}).update(ratios)
+    if 'ratios' in bart:
+        bart['ratios'] = ratios
     moves['acc'] = acc
     moves['to_prune'] = to_prune
 
-- 
2.43.0


From 438a798de9b02854afc6bae2a6ffcc5b4fc066a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:35 +0000
Subject: [PATCH 03/15] fix: predict with pandas dataframes

The columns of a pandas dataframe are an Index, comparing two of them gives an
array, so the format check in predict raised an error for any test dataframe
with more than one column.
---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From 6dec649dadfdfe390116adfc38ff74c7c0ac290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:05 +0000
Subject: [PATCH 04/15] fix: nan noise variance prior with collinear predictors

lstsq returns nan in place of the sum of squared residuals if the rank is not
full, so with a constant, duplicated or otherwise collinear predictor sigest and
lamda were nan, and with them the whole fit.
---
 src/bartz/BART.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 14df0db..bceb3f7 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -299,8 +299,15 @@ class gbart:
                 x_centered = x_train.T - x_train.mean(axis=1)
                 y_centered = y_train - y_train.mean()
                     # centering is equivalent to adding an intercept column
-                _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
-                chisq = chisq.squeeze(0)
+                # do not use lstsq because if the rank is not full it gives nan
+                # as sum of squared residuals, and for a zero matrix also a
+                # wrong rank
+                u, s, _ = jnp.linalg.svd(x_centered, full_matrices=False)
+                rcond = jnp.finfo(s.dtype).eps * max(x_centered.shape)
+                mask = s > rcond * s.max(initial=0)
+                rank = jnp.count_nonzero(mask)
+                resid = y_centered - u @ jnp.where(mask, u.T @ y_centered, 0)
+                chisq = jnp.dot(resid, resid)
                 dof = len(y_train) - rank
                 sigest2 = chisq / dof
             alpha = sigdf / 2
-- 
2.43.0


From 757e8bf86aa7237d115a7b2af72ce8c7be0eb03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:48 +0000
Subject: [PATCH 05/15] fix: do not accept grow moves with an invalid decision
 rule

If no predictor has cutpoints left at the leaf to grow, or if the predictor
chosen has no cutpoints at all, the proposed rule is meaningless (out of range
predictor and/or cutpoint). Such rules leave one child empty so they were
rejected due to the minimum leaf size, but without a minimum (the default of
mcmcstep.init) they could be accepted and saved in the trees, and corrupt the
residuals if the index of the predictor was truncated.
---
 src/bartz/mcmcstep.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index de63948..a579ca7 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -358,7 +358,7 @@ def sample_moves(bart, key):
     right = left + 1
 
     return dict(
-        allowed=grow | prune_moves['allowed'],
+        allowed=jnp.where(grow, grow_moves['allowed'], prune_moves['allowed']),
         grow=grow,
         num_growable=grow_moves['num_growable'],
         node=node,
@@ -409,6 +409,9 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
     grow_move : dict
         A dictionary with fields:
 
+        'allowed' : bool
+            Whether the new rule is valid, i.e., there is at least one predictor
+            with a cutpoint available at the chosen leaf, and it was chosen.
         'num_growable' : int
             The number of growable leaves.
         'node' : int
@@ -429,6 +432,9 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
     leaf_to_grow, num_growable, prob_choose, num_prunable = choose_leaf(split_tree, affluence_tree, p_propose_grow, key)
 
     var = choose_variable(var_tree, split_tree, max_split, leaf_to_grow, key1)
+    allowed = max_split.at[var].get(mode='fill', fill_value=0) > 0
+        # either there's no variable with available splits, thus var == p, or
+        # the variable does not have any splits to begin with
     var_tree = var_tree.at[leaf_to_grow].set(var.astype(var_tree.dtype))
 
     split = choose_split(var_tree, split_tree, max_split, leaf_to_grow, key2)
@@ -436,6 +442,7 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
     ratio = compute_partial_ratio(prob_choose, num_prunable, p_nonterminal, leaf_to_grow)
 
     return dict(
+        allowed=allowed,
         num_growable=num_growable,
         node=leaf_to_grow,
         var=var,
-- 
2.43.0


From e6effefd5d78093ac2d4cf3aea9dd2b8b9822080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:48 +0000
Subject: [PATCH 06/15] fix: put only the documented fields in empty traces

If there are no burn-in or no saved iterations, the corresponding trace
contained all the fields of the state instead of the documented ones.
---
 src/bartz/mcmcloop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcloop.py b/src/bartz/mcmcloop.py
index 4510b3d..4889ec3 100644
--- a/src/bartz/mcmcloop.py
+++ b/src/bartz/mcmcloop.py
@@ -107,7 +107,8 @@ def run_mcmc(bart, n_burn, n_save, n_skip, callback, key):
         return (bart, i_total + 1, i_skip + 1, key), output
 
     def empty_trace(bart, tracelist):
-        return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(bart)
+        output = {key: bart[key] for key in tracelist if key in bart}
+        return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(output)
 
     if n_burn > 0:
         carry = bart, 0, 0, key
-- 
2.43.0


From 2607a0ad51ec0873d4cff95b097ca03729775381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:48 +0000
Subject: [PATCH 07/15] fix: determination of cutpoints without datapoints

uniform_splits_from_matrix (the default of gbart) raised an error, and
quantilized_splits_from_matrix returned a number of cutpoints of -1 wrapped to
an unsigned type.
---
 src/bartz/prepcovars.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 4319b6b..d71664a 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -53,7 +53,7 @@ def quantilized_splits_from_matrix(X, max_bins):
     max_split : array (p,)
         The number of actually used values in each row of `splits`.
     """
-    out_length = min(max_bins, X.shape[1]) - 1
+    out_length = max(0, min(max_bins, X.shape[1]) - 1)
     # return _quantilized_splits_from_matrix(X, out_length)
     @functools.partial(jaxext.autobatch, max_io_nbytes=2 ** 29)
     def quantilize(X):
@@ -64,7 +64,7 @@ def quantilized_splits_from_matrix(X, max_bins):
 def _quantilized_splits_from_matrix(x, out_length):
     huge = jaxext.huge_value(x)
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
-    actual_length -= 1
+    actual_length = jnp.maximum(0, actual_length - 1)
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
@@ -103,8 +103,11 @@ def uniform_splits_from_matrix(X, num_bins):
     max_split : array (p,)
         The number of cutpoints in each row of `splits`, i.e., ``num_bins - 1``.
     """
-    low = jnp.min(X, axis=1)
-    high = jnp.max(X, axis=1)
+    if X.shape[1]:
+        low = jnp.min(X, axis=1)
+        high = jnp.max(X, axis=1)
+    else:
+        low = high = jnp.zeros(X.shape[0], X.dtype)
     splits = jnp.linspace(low, high, num_bins + 1, axis=1)[:, 1:-1]
     assert splits.shape == (X.shape[0], num_bins - 1)
     max_split = jnp.full(*splits.shape, jaxext.minimal_unsigned_dtype(num_bins - 1))
-- 
2.43.0


From ca43e98898ec692fdaf6e965d28a0ee7f01865e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:48 +0000
Subject: [PATCH 08/15] fix: trees of maximum depth 1 or 2

With so few levels a leaf to grow has no possible ancestors, and the arrays with
zero or negative length this produced were not handled.
---
 src/bartz/mcmcstep.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index a579ca7..64f5253 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -612,8 +612,10 @@ def ancestor_variables(var_tree, max_split, node_index):
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
+    if not ancestor_vars.size:
+        return ancestor_vars
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
         i, index, ancestor_vars = carry
@@ -647,7 +649,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = jnp.int32(0), initial_r, node_index
         # explicit type because with a weak type `l` would become of the same
@@ -685,6 +687,8 @@ def randint_exclude(key, sup, exclude):
         ``u not in exclude``. If all values in the range are excluded, return
         `sup`.
     """
+    if not exclude.size:
+        return random.randint(key, (), 0, sup)
     exclude = jnp.unique(exclude, size=exclude.size, fill_value=sup)
     num_allowed = sup - jnp.count_nonzero(exclude < sup)
     u = random.randint(key, (), 0, num_allowed)
-- 
2.43.0


From e880c0492c03c2681aaa535e82b9d5a024ff311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:56 +0000
Subject: [PATCH 09/15] fix: overflow in the distribution of points per leaf

The leaf indicators were used as uint8 weights by bincount, so the number of
leaves with the same count wrapped around at 256 (trees of depth >= 9).
---
 src/bartz/debug.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bartz/debug.py b/src/bartz/debug.py
index 868ab35..bc8afea 100644
--- a/src/bartz/debug.py
+++ b/src/bartz/debug.py
@@ -86,7 +86,9 @@ def points_per_leaf_distr(var_tree, split_tree, X):
     indices = traverse_tree(X, var_tree, split_tree)
     count_tree = jnp.zeros(2 * split_tree.size, dtype=jaxext.minimal_unsigned_dtype(indices.size))
     count_tree = count_tree.at[indices].add(1)
-    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).view(jnp.uint8)
+    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True)
+    is_leaf = is_leaf.astype(jaxext.minimal_unsigned_dtype(is_leaf.size))
+        # the output of bincount has the type of the weights
     return jnp.bincount(count_tree, is_leaf, length=X.shape[1] + 1)
 
 def forest_points_per_leaf_distr(bart, X):
-- 
2.43.0


From 6fddbd805cdca8158be1ab817dc3b764fe6b2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:26 +0000
Subject: [PATCH 10/15] fix: keep the floating point types of the state

With small_float different from large_float, or with jax_enable_x64, a step
changed the types of leaf_trees, resid, sigma2 or ratios, so run_mcmc failed.
---
 src/bartz/mcmcstep.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 64f5253..d4c42eb 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -210,8 +210,8 @@ def init(*,
 
     if save_ratios:
         bart['ratios'] = dict(
-            log_trans_prior=jnp.full(num_trees, jnp.nan),
-            log_likelihood=jnp.full(num_trees, jnp.nan),
+            log_trans_prior=jnp.full(num_trees, jnp.nan, large_float),
+            log_likelihood=jnp.full(num_trees, jnp.nan, large_float),
         )
 
     return bart
@@ -1348,6 +1348,10 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
         The acceptance ratios for the moves. Empty if not to be saved.
     """
 
+    # use the precision of the residuals for calculations on the leaves
+    leaf_dtype = leaf_tree.dtype
+    leaf_tree = leaf_tree.astype(resid.dtype)
+
     # sum residuals and count units per leaf, in tree proposed by grow move
     resid_tree = sum_resid(resid, leaf_indices, leaf_tree.size, resid_batch_size)
 
@@ -1373,8 +1377,8 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     ratios = {}
     if save_ratios:
         ratios.update(
-            log_trans_prior=move['log_trans_prior_ratio'],
-            log_likelihood=log_lk_ratio,
+            log_trans_prior=move['log_trans_prior_ratio'].astype(resid.dtype),
+            log_likelihood=log_lk_ratio.astype(resid.dtype),
         )
 
     # determine whether to accept the move
@@ -1387,6 +1391,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     initial_leaf_tree = leaf_tree
     mean_post = resid_tree * prelf['mean_factor']
     leaf_tree = mean_post + prelf['centered_leaves']
+    leaf_tree = leaf_tree.astype(leaf_dtype)
 
     # copy leaves around such that the leaf indices select the right leaf
     to_prune = acc ^ move['grow']
@@ -1398,7 +1403,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     )
 
     # replace old tree with new tree in function values
-    resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
+    resid += (initial_leaf_tree - leaf_tree)[leaf_indices].astype(resid.dtype)
 
     return resid, leaf_tree, acc, to_prune, ratios
 
@@ -1575,7 +1580,7 @@ def sample_sigma(bart, key):
     norm2 = jnp.dot(resid, resid, preferred_element_type=bart['opt']['large_float'])
     beta = bart['sigma2_beta'] + norm2 / 2
 
-    sample = random.gamma(key, alpha)
+    sample = random.gamma(key, alpha, dtype=alpha.dtype)
     bart['sigma2'] = beta / sample
 
     return bart
-- 
2.43.0


From 3bd5349a1cd6352cf10f999699309177f4b7fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:17 +0000
Subject: [PATCH 11/15] fix: do not propose splits on predictors without
 cutpoints

---
 src/bartz/mcmcstep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d4c42eb..f00cea9 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -561,7 +561,9 @@ def choose_variable(var_tree, split_tree, max_split, leaf_index, key):
     allowed splits. If no variable has a non-empty range, return `p`.
     """
     var_to_ignore = fully_used_variables(var_tree, split_tree, max_split, leaf_index)
-    return randint_exclude(key, max_split.size, var_to_ignore)
+    allowed = (max_split > 0).at[var_to_ignore].set(False)
+        # indices out of bounds are dropped
+    return randint_masked(key, allowed)
 
 def fully_used_variables(var_tree, split_tree, max_split, leaf_index):
     """
-- 
2.43.0


From 4eed641e92ae4094ea1df25c5b13aabe1d381d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 12/15] fix: sort evenly spaced cutpoints, roundoff may swap
 them

---
 src/bartz/prepcovars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index d71664a..a94e416 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -109,6 +109,7 @@ def uniform_splits_from_matrix(X, num_bins):
     else:
         low = high = jnp.zeros(X.shape[0], X.dtype)
     splits = jnp.linspace(low, high, num_bins + 1, axis=1)[:, 1:-1]
+    splits = jnp.sort(splits, axis=1) # roundoff may swap cutpoints if the range is narrow
     assert splits.shape == (X.shape[0], num_bins - 1)
     max_split = jnp.full(*splits.shape, jaxext.minimal_unsigned_dtype(num_bins - 1))
     return splits, max_split
-- 
2.43.0


From d32365b24854b90f1bb79f07b7b3ae377b934a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:27 +0000
Subject: [PATCH 13/15] fix: do not scan all predictors for each tree to choose
 a usable one

Cheaper form of the previous repair of choose_variable, same results.
---
 src/bartz/mcmcstep.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index f00cea9..64f0005 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -561,9 +561,15 @@ def choose_variable(var_tree, split_tree, max_split, leaf_index, key):
     allowed splits. If no variable has a non-empty range, return `p`.
     """
     var_to_ignore = fully_used_variables(var_tree, split_tree, max_split, leaf_index)
-    allowed = (max_split > 0).at[var_to_ignore].set(False)
-        # indices out of bounds are dropped
-    return randint_masked(key, allowed)
+
+    # predictors without any cutpoint are never proposed: pick one of the others
+    # by its rank among them
+    rank = jnp.cumsum(max_split > 0)
+    num_usable = rank[-1]
+    rank_to_ignore = jnp.where(max_split[var_to_ignore], rank[var_to_ignore] - 1, num_usable)
+    rank_to_ignore = jnp.where(var_to_ignore < max_split.size, rank_to_ignore, num_usable)
+    u = randint_exclude(key, num_usable, rank_to_ignore)
+    return jnp.searchsorted(rank, u, 'right')
 
 def fully_used_variables(var_tree, split_tree, max_split, leaf_index):
     """
-- 
2.43.0


From e78929f3734de94d0b5d351e7ac989088a51ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:03 +0000
Subject: [PATCH 14/15] fix: scale of responses given as small integers

The range of the response was computed in its own integer type, and overflowed
with e.g. int8 values. Convert the response to floating point first, with at
least the precision used by the MCMC.
---
 src/bartz/BART.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index bceb3f7..2cd260c 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -276,6 +276,8 @@ class gbart:
         else:
             fmt = dict(kind='array')
         y = jnp.asarray(y)
+        y = y.astype(jnp.promote_types(jnp.result_type(y, float), jnp.float32))
+            # integers would overflow, small floats would be too inaccurate
         assert y.ndim == 1
         return y, fmt
 
-- 
2.43.0


From 5d1952c290764e91a4409b7c95840fbf9f820f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:03 +0000
Subject: [PATCH 15/15] fix: fits with half precision predictors

The regression behind the default prior of the noise variance is not implemented
for 16 bit floats.
---
 src/bartz/BART.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 2cd260c..87a3454 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -261,6 +261,9 @@ class gbart:
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
         x = jnp.asarray(x)
+        if jnp.issubdtype(x.dtype, jnp.floating):
+            x = x.astype(jnp.promote_types(x.dtype, jnp.float32))
+                # half precision is not supported by the regression
         assert x.ndim == 2
         return x, fmt
 
-- 
2.43.0

