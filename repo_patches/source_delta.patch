From 25d9acdb9d093dd74b5a12cef23c256c2ecceb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 01/52] fix: look at the first element when deciding whether a
 column is constant

is_not_constant skipped series[0], so a column that differs only in its first
row (and every two-row node) was reported as unsplittable.
---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index baf8e7b..9bfa535 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -24,7 +24,7 @@ def is_not_constant(series: np.ndarray) -> bool:
     if len(series) <= 1:
         return False
     first_value = None
-    for i in range(1, len(series)):
+    for i in range(0, len(series)):
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-- 
2.43.0


From 6b23678ef20862e838d9c35d86ffaae18cd5b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 02/52] fix: normalise a constant target without dividing by
 zero

A constant target became NaN and so did every prediction.
---
 bartpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/data.py b/bartpy/data.py
index 9bfa535..4c5d3fe 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -250,6 +250,8 @@ class Target(object):
         array([-0.5,  0. ,  0.5])
         """
         y_min, y_max = np.min(y), np.max(y)
+        if y_min == y_max:
+            return np.zeros_like(y, dtype=float)
         return -0.5 + ((y - y_min) / (y_max - y_min))
 
     def unnormalize_y(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 48a40e51cfa0a798ba0087638fb99e99c374ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 03/52] fix: convert covariates to floats in the sklearn API

DataFrames with mixed column types (e.g. float and bool) are object arrays,
on which fit failed; make_bartpy_data already does the conversion (and copies).
---
 bartpy/model.py        | 7 ++-----
 bartpy/sklearnmodel.py | 8 ++------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index b1f1742..a8570e6 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -2,9 +2,8 @@ from copy import deepcopy, copy
 from typing import List, Generator, Optional
 
 import numpy as np
-import pandas as pd
 
-from bartpy.data import Data
+from bartpy.data import Data, format_covariate_matrix
 from bartpy.initializers.initializer import Initializer
 from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
 from bartpy.sigma import Sigma
@@ -59,9 +58,7 @@ class Model:
         return np.sum([tree.predict() for tree in self.trees], axis=0)
 
     def _out_of_sample_predict(self, X: np.ndarray) -> np.ndarray:
-        if type(X) == pd.DataFrame:
-            X: pd.DataFrame = X
-            X = X.values
+        X = format_covariate_matrix(X)
         return np.sum([tree.predict(X) for tree in self.trees], axis=0)
 
     @property
diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 7e92b1a..c7e903d 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -6,7 +6,7 @@ import pandas as pd
 from joblib import Parallel, delayed
 from sklearn.base import RegressorMixin, BaseEstimator
 
-from bartpy.data import Data
+from bartpy.data import Data, make_bartpy_data
 from bartpy.initializers.initializer import Initializer
 from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
 from bartpy.model import Model
@@ -154,11 +154,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
     @staticmethod
     def _convert_covariates_to_data(X: np.ndarray, y: np.ndarray) -> Data:
-        from copy import deepcopy
-        if type(X) == pd.DataFrame:
-            X: pd.DataFrame = X
-            X = X.values
-        return Data(deepcopy(X), deepcopy(y), normalize=True)
+        return make_bartpy_data(X, y, normalize=True)
 
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
-- 
2.43.0


From 59551585301f90eba4a043457ae1f92350aa4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 04/52] fix: size the in-sample prediction by the number of
 training rows

It was sized by the row count of whichever node came first in the node list,
so predicting with a tree that was grown before its first prediction failed.
---
 bartpy/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index fb6b58f..ad946ac 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -85,7 +85,7 @@ class Tree:
             return self._prediction
         for leaf in self.leaf_nodes:
             if self._prediction is None:
-                self._prediction = np.zeros(self.nodes[0].data.X.n_obsv)
+                self._prediction = np.zeros(len(leaf.data.mask))
             self._prediction[leaf.split.condition()] = leaf.predict()
         self.cache_up_to_date = True
         return self._prediction
-- 
2.43.0


From 7716cee7989255584312573e7d3f8f814a46adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 05/52] fix: do not serve a stale in-sample prediction after a
 leaf value changed

The prediction cache was only invalidated by structural and target updates.
Any prediction made between the tree step and the leaf steps (e.g. by an extra
sampling step) froze the old leaf values into the following residuals.
---
 bartpy/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index ad946ac..1115015 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -25,6 +25,7 @@ class Tree:
         self._nodes = nodes
         self.cache_up_to_date = False
         self._prediction = None
+        self._predicted_leaf_values = None
 
     @property
     def nodes(self) -> List[TreeNode]:
@@ -81,13 +82,15 @@ class Tree:
         if X is not None:
             return self._out_of_sample_predict(X)
 
-        if self.cache_up_to_date:
+        leaf_values = [leaf.predict() for leaf in self.leaf_nodes]
+        if self.cache_up_to_date and leaf_values == self._predicted_leaf_values:
             return self._prediction
         for leaf in self.leaf_nodes:
             if self._prediction is None:
                 self._prediction = np.zeros(len(leaf.data.mask))
             self._prediction[leaf.split.condition()] = leaf.predict()
         self.cache_up_to_date = True
+        self._predicted_leaf_values = leaf_values
         return self._prediction
 
     def _out_of_sample_predict(self, X) -> np.ndarray:
-- 
2.43.0


From 9847166a20b464405d38f8d250f196d0067f6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 06/52] fix: keep the target of freshly initialised trees

The nested update_y call replaced it with None.
---
 bartpy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index a8570e6..7c099a8 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -43,7 +43,7 @@ class Model:
     def initialize_trees(self) -> List[Tree]:
         trees = [Tree([LeafNode(Split(deepcopy(self.data)))]) for _ in range(self.n_trees)]
         for tree in trees:
-            tree.update_y(tree.update_y(self.data.y.values / self.n_trees))
+            tree.update_y(self.data.y.values / self.n_trees)
         return trees
 
     def residuals(self) -> np.ndarray:
-- 
2.43.0


From 4a6b43ac98ca6f7d8b81598acd6d6712fd5fc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 07/52] fix: start every sweep from the actual sum of the trees

The running prediction was carried from sweep to sweep; a sweep that was
interrupted left it without the interrupted tree's contribution and every later
residual was wrong.
---
 bartpy/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index 7c099a8..f89e059 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -66,8 +66,7 @@ class Model:
         return self._trees
 
     def refreshed_trees(self) -> Generator[Tree, None, None]:
-        if self._prediction is None:
-            self._prediction = self.predict()
+        self._prediction = self.predict()
         for tree in self._trees:
             self._prediction -= tree.predict()
             tree.update_y(self.data.y.values - self._prediction)
-- 
2.43.0


From c45dedb85889f9f40849b7bd4361b58b4d759d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 08/52] fix: link the nodes of a copied tree to each other

Copied decision nodes pointed at the live tree's children, so stored samples
changed while sampling went on and kept all of the training data alive.
---
 bartpy/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index 1115015..442be66 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -174,4 +174,9 @@ def deep_copy_tree(tree: Tree):
     Tree
         Version of the tree optimized to be low memory
     """
-    return Tree([deep_copy_node(x) for x in tree.nodes])
+    copies = {id(x): deep_copy_node(x) for x in tree.nodes}
+    for node in copies.values():
+        if node.left_child is not None:
+            node._left_child = copies[id(node.left_child)]
+            node._right_child = copies[id(node.right_child)]
+    return Tree([copies[id(x)] for x in tree.nodes])
-- 
2.43.0


From f3effe1227826b45065c5ae427871e0a0121eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 09/52] fix: keep the prior parameters in copied models

---
 bartpy/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index f89e059..51b54d5 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -83,5 +83,6 @@ class Model:
 
 
 def deep_copy_model(model: Model) -> Model:
-    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees])
+    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees],
+                         alpha=model.alpha, beta=model.beta, k=model.k)
     return copied_model
-- 
2.43.0


From bf0a45c1153fc1928b9ff86d6638f4a278bc059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 10/52] fix: compare the log of the uniform draw with the log
 ratio

Proposals are to be accepted when a uniform draw is below the likelihood ratio,
but the draw was compared with the logarithm of the ratio: any move with a ratio
below one was always rejected.
---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 +-
 bartpy/samplers/unconstrainedtree/treemutation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index 292bfc0..cb8fc21 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -40,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
             return None
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index ce82dbe..b60b7c2 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -1,5 +1,7 @@
 from typing import Optional
 
+import numpy as np
+
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
         else:
             return None
-- 
2.43.0


From 4cb32b7d207c134a15852d2fc203c2bab908ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 11/52] fix: use the leaf prior variance throughout the
 likelihood ratio

The marginal likelihood of a leaf has variance sigma^2 + n * sigma_mu^2; several
terms used sigma_mu instead of its square.
---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 8 ++++----
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index b6c2b17..ac0f202 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -17,12 +17,12 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
-    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index e0bf3df..c9b1904 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -17,16 +17,16 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
     combined_y_sum = combined_node.data.y.summed_y()
     left_y_sum = left_node.data.y.summed_y()
     right_y_sum = right_node.data.y.summed_y()
 
-    left_resp_contribution = np.square(left_y_sum) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_y_sum) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_y_sum) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_y_sum) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_y_sum) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_y_sum) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
-- 
2.43.0


From e6a8579db4eceedfaede0e831c59230c4500cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 12/52] fix: leave the choice of leaf out of the tree prior
 when growing

The prior of the grown tree contains the probability of the split rule within the
node, as it does when pruning; the probability of picking the leaf belongs to the
transition ratio only and was cancelled out of it.
---
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index c9b1904..03be3d5 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -108,7 +108,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_left_not_split = log_probability_node_not_split(model, proposal.updated_node.left_child)
         prob_right_not_split = log_probability_node_not_split(model, proposal.updated_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.updated_node)
-        prob_chosen_split = log_probability_split_within_tree(tree, proposal)
+        prob_chosen_split = log_probability_split_within_node(proposal)
         numerator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
 
         return numerator - denominator
-- 
2.43.0


From f171ba0a148a4fcfc9ecc48ac013543cdf74da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 13/52] fix: count the candidates of the reverse move correctly

Growing a child of a prunable node does not add a prunable node, and pruning does
not always remove exactly one splittable leaf: pruning a node whose children were
not both splittable had ratio zero or NaN, so such splits could never be undone.
---
 .../unconstrainedtree/likihoodratio.py        | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index 03be3d5..07902b4 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -78,7 +78,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return - log_grow_ratio(proposal.updated_node, proposal.existing_node.left_child, proposal.existing_node.right_child, model.sigma, model.sigma_m)
 
     def log_grow_transition_ratio(self, tree: Tree, mutation: GrowMutation):
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree) + 1)
+        prob_prune_selected = - np.log(n_prunable_decision_nodes_after_grow(tree, mutation))
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
@@ -87,10 +87,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return prune_grow_ratio + prob_selection_ratio
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        if n_splittable_leaf_nodes(tree) == 1:
-            prob_grow_node_selected = - np.inf  # Infinitely unlikely to be able to grow a null tree
-        else:
-            prob_grow_node_selected = - np.log(n_splittable_leaf_nodes(tree) - 1)
+        prob_grow_node_selected = - np.log(n_splittable_leaf_nodes_after_prune(tree, mutation))
         prob_split = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
         prob_grow_selected = prob_grow_node_selected + prob_split
 
@@ -142,6 +139,24 @@ def n_splittable_leaf_nodes(tree: Tree) -> int:
     return len(tree.splittable_leaf_nodes)
 
 
+def n_prunable_decision_nodes_after_grow(tree: Tree, mutation: GrowMutation) -> int:
+    """
+    The number of prunable decision nodes once the mutation is applied
+    The grown node becomes prunable, but its parent stops being prunable if it was
+    """
+    parent_was_prunable = any(mutation.existing_node in (x.left_child, x.right_child) for x in tree.prunable_decision_nodes)
+    return n_prunable_decision_nodes(tree) + 1 - int(parent_was_prunable)
+
+
+def n_splittable_leaf_nodes_after_prune(tree: Tree, mutation: PruneMutation) -> int:
+    """
+    The number of splittable leaf nodes once the mutation is applied
+    The pruned node is splittable again, its children are gone whether or not they were splittable
+    """
+    children = (mutation.existing_node.left_child, mutation.existing_node.right_child)
+    return n_splittable_leaf_nodes(tree) + 1 - sum([int(x.is_splittable()) for x in children])
+
+
 def log_probability_split_within_tree(tree: Tree, mutation: GrowMutation) -> float:
     """
     The log probability of the particular grow mutation being selected conditional on growing a given tree
-- 
2.43.0


From 64f6612b20a6d2f49acd1469270e91d99e84ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 14/52] fix: use the actual grow and prune probabilities in the
 transition ratio

When only one kind of move is possible (a single leaf, or no splittable leaf) the
proposer always makes that move; the ratio assumed the configured probabilities.
---
 .../unconstrainedtree/likihoodratio.py        | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index 07902b4..7b7409b 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -82,7 +82,10 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
-        prune_grow_ratio = np.log(self.prob_method[1] / self.prob_method[0])
+        can_grow_after = n_splittable_leaf_nodes_after_grow(tree, mutation) > 0
+        prob_prune = self.prob_method[1] if can_grow_after else 1.
+        prob_grow = self.prob_method[0] if n_prunable_decision_nodes(tree) > 0 else 1.
+        prune_grow_ratio = np.log(prob_prune / prob_grow)
 
         return prune_grow_ratio + prob_selection_ratio
 
@@ -94,7 +97,10 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_prune_selected = - np.log(n_prunable_decision_nodes(tree))
 
         prob_selection_ratio = prob_grow_selected - prob_prune_selected
-        grow_prune_ratio = np.log(self.prob_method[0] / self.prob_method[1])
+        can_prune_after = n_prunable_decision_nodes_after_prune(tree, mutation) > 0
+        prob_grow = self.prob_method[0] if can_prune_after else 1.
+        prob_prune = self.prob_method[1] if n_splittable_leaf_nodes(tree) > 0 else 1.
+        grow_prune_ratio = np.log(prob_grow / prob_prune)
 
         return grow_prune_ratio + prob_selection_ratio
 
@@ -148,6 +154,21 @@ def n_prunable_decision_nodes_after_grow(tree: Tree, mutation: GrowMutation) ->
     return n_prunable_decision_nodes(tree) + 1 - int(parent_was_prunable)
 
 
+def n_splittable_leaf_nodes_after_grow(tree: Tree, mutation: GrowMutation) -> int:
+    children = (mutation.updated_node.left_child, mutation.updated_node.right_child)
+    return n_splittable_leaf_nodes(tree) - 1 + sum([int(x.is_splittable()) for x in children])
+
+
+def n_prunable_decision_nodes_after_prune(tree: Tree, mutation: PruneMutation) -> int:
+    """
+    The number of prunable decision nodes once the mutation is applied
+    The pruned node is now a leaf, which makes its parent prunable if its sibling is also a leaf
+    """
+    parents = [x for x in tree.decision_nodes if mutation.existing_node in (x.left_child, x.right_child)]
+    siblings = [x.right_child if x.left_child is mutation.existing_node else x.left_child for x in parents]
+    return n_prunable_decision_nodes(tree) - 1 + sum([int(type(x) == LeafNode) for x in siblings])
+
+
 def n_splittable_leaf_nodes_after_prune(tree: Tree, mutation: PruneMutation) -> int:
     """
     The number of splittable leaf nodes once the mutation is applied
-- 
2.43.0


From c5feefc0b2fe58ce4c658a97e672b0181225ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:49 +0000
Subject: [PATCH 15/52] fix: draw leaf values with the full posterior variance

The leaf prior variance already accounts for the number of trees; dividing the
posterior variance by it again made the draws n_trees times too narrow.
---
 bartpy/samplers/leafnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/leafnode.py b/bartpy/samplers/leafnode.py
index d70b702..3625fbb 100644
--- a/bartpy/samplers/leafnode.py
+++ b/bartpy/samplers/leafnode.py
@@ -30,7 +30,7 @@ class LeafNodeSampler(Sampler):
         likihood_mean = node.data.y.summed_y() / n
         posterior_variance = 1. / (1. / prior_var + 1. / likihood_var)
         posterior_mean = likihood_mean * (prior_var / (likihood_var + prior_var))
-        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance / model.n_trees, 0.5))
+        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance, 0.5))
 
 
 # class VectorizedLeafNodeSampler(Sampler):
-- 
2.43.0


From 7ad6ea93fe0b59b6542abe39ab959366ab9a2d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:21 +0000
Subject: [PATCH 16/52] fix: give thresholds between observed values the
 probability of their split

Trees taken over from sklearn split half-way between observed values; the
proportion of such a threshold was zero, which made the ratio for pruning the
split NaN, so it could never be pruned.
---
 bartpy/data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index 4c5d3fe..5043baa 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -188,7 +188,12 @@ class CovariateMatrix(object):
         if self.is_column_unique(variable):
             return 1. / self.n_obsv
         else:
-            return float(np.mean(self.get_column(variable) == value))
+            column = self.get_column(variable)
+            not_above = column[column <= value]
+            if len(not_above) == 0:
+                return 0.
+            # a threshold between two observed values makes the same split as the lower one
+            return float(np.mean(column == not_above.max()))
 
     def update_mask(self, other: SplitCondition) -> np.ndarray:
         if other.operator == gt:
-- 
2.43.0


From 7e4ffd2bdd079f28f64058eb6de74639948d8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:21 +0000
Subject: [PATCH 17/52] fix: store the requested fraction of the samples for
 any thin

ss % (1 / thin) is only zero at the right steps if thin is the exact reciprocal of
an integer; thin=0.3 or 0.7 stored one sample out of a hundred.
---
 bartpy/samplers/modelsampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/modelsampler.py b/bartpy/samplers/modelsampler.py
index 4d8b997..6167631 100644
--- a/bartpy/samplers/modelsampler.py
+++ b/bartpy/samplers/modelsampler.py
@@ -46,11 +46,12 @@ class ModelSampler(Sampler):
         acceptance_trace = []
         print("Starting sampling")
 
-        thin_inverse = 1. / thin
+        n_stored = 0
 
         for ss in tqdm(range(n_samples)):
             step_trace_dict = self.step(model, trace_logger)
-            if ss % thin_inverse == 0:
+            if n_stored < round((ss + 1) * thin, 9):
+                n_stored += 1
                 if store_in_sample_predictions:
                     in_sample_log = trace_logger["In Sample Prediction"](model.predict())
                     if in_sample_log is not None:
-- 
2.43.0


From 1728234481ee71ed2ba39161bf8a438249f0045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 18/52] fix: do not recurse forever when a tree can neither
 grow nor be pruned

Fitting constant covariates or a single row ended in a RecursionError. Such a tree
now has no proposal and the step leaves it alone.
---
 bartpy/samplers/unconstrainedtree/proposer.py    | 16 ++++++++--------
 .../samplers/unconstrainedtree/treemutation.py   |  2 ++
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index c84e826..91bd631 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -40,14 +40,14 @@ class UniformMutationProposer(TreeMutationProposer):
                                               list(self.prob_method_lookup.values()),
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
-        method = self.method_sampler.sample()
-        try:
-            return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
-            return self.propose(tree)
+    def propose(self, tree: Tree) -> Optional[TreeMutation]:
+        while True:
+            method = self.method_sampler.sample()
+            try:
+                return method(tree)
+            except (NoSplittableVariableException, NoPrunableNodeException):
+                if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+                    return None
 
 
 def random_splittable_leaf_node(tree: Tree) -> LeafNode:
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index b60b7c2..1dfc6de 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
+        if proposal is None:
+            return None
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
-- 
2.43.0


From a027da29d664ccea62ce4e010bc209bda87f8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 19/52] fix: only grow splittable leaves in oblivious trees

An unsplittable leaf was replaced by two leaves that both held all of its rows, so
leaves overlapped (and a tree without any split condition made the ratio fail).
Propose nothing when nothing can be grown or pruned.
---
 bartpy/samplers/oblivioustrees/proposer.py    | 26 ++++++++++++-------
 .../samplers/oblivioustrees/treemutation.py   |  2 ++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 4ceeb05..98a2784 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -13,11 +13,17 @@ from bartpy.tree import Tree
 
 
 def grow_mutations(tree: Tree) -> List[TreeMutation]:
-    return [GrowMutation(x, sample_split_node(x)) for x in tree.leaf_nodes]
+    splittable_nodes = tree.splittable_leaf_nodes
+    if len(splittable_nodes) == 0:
+        raise NoSplittableVariableException()
+    return [GrowMutation(x, sample_split_node(x)) for x in splittable_nodes]
 
 
 def prune_mutations(tree: Tree) -> List[TreeMutation]:
-    return [PruneMutation(x, LeafNode(x.split, depth=x.depth)) for x in tree.prunable_decision_nodes]
+    prunable_nodes = tree.prunable_decision_nodes
+    if len(prunable_nodes) == 0:
+        raise NoPrunableNodeException()
+    return [PruneMutation(x, LeafNode(x.split, depth=x.depth)) for x in prunable_nodes]
 
 
 class UniformMutationProposer(TreeMutationProposer):
@@ -29,14 +35,14 @@ class UniformMutationProposer(TreeMutationProposer):
                                               [p_grow, p_prune],
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
-        method = self.method_sampler.sample()
-        try:
-            return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
-            return self.propose(tree)
+    def propose(self, tree: Tree) -> List[TreeMutation]:
+        while True:
+            method = self.method_sampler.sample()
+            try:
+                return method(tree)
+            except (NoSplittableVariableException, NoPrunableNodeException):
+                if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+                    return []
 
 
 def sample_split_condition(node: LeafNode) -> Optional[Tuple[SplitCondition, SplitCondition]]:
diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index cb8fc21..3b0f793 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
+        if len(proposals) == 0:
+            return None
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
-- 
2.43.0


From ab1cec6e9f0e938b6cb654f0a6b0ef9eb667a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 20/52] fix: put the samples of an extract into the new model

from_extract stored them in the template, so models run in a batch had the samples
of the previous data set, or none.
---
 bartpy/sklearnmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index c7e903d..268177b 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -356,7 +356,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
-        self._model_samples, self._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
-        self._acceptance_trace = combined_chain["acceptance"]
+        new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
+        new_model._acceptance_trace = combined_chain["acceptance"]
         new_model.data = self._convert_covariates_to_data(X, y)
         return new_model
-- 
2.43.0


From cfe4cb4738f43ac57beb532e2cc248e38ba14638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 21/52] fix: prediction_samples returned itself until the stack
 overflowed

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 268177b..704ba22 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -334,7 +334,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             prediction samples with dimensionality n_samples * n_points
         """
-        return self.prediction_samples
+        return self._prediction_samples
 
     def from_extract(self, extract: List[Chain], X: np.ndarray, y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From 8cf3516009886b669d9b33a1275e8426607eebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 22/52] fix: take the training target from the estimator's own
 data in residuals

A model built from an extract holds the data it was run on, but its model attribute
is that of the template (or None).
---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 704ba22..6fece98 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -243,7 +243,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             Error for each observation
         """
         if y is None:
-            return self.model.data.y.unnormalized_y - self.predict(X)
+            return self.data.y.unnormalized_y - self.predict(X)
         else:
             return y - self.predict(X)
 
-- 
2.43.0


From 857ebbaddf26156798160dc63ce479ed151a51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 23/52] fix: use a tree sampler that was set through set_params

The sampling schedule kept the one passed to the constructor, so e.g. a grid search
over tree samplers compared the same sampler with itself.
---
 bartpy/sklearnmodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 6fece98..8a83de2 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -121,6 +121,12 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
         self.sigma, self.data, self.model, self._prediction_samples, self._model_samples, self.extract = [None] * 6
 
+    def set_params(self, **params) -> 'SklearnModel':
+        super().set_params(**params)
+        if "tree_sampler" in params:
+            self.schedule.tree_sampler = self.tree_sampler
+        return self
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From 6f7a11e91a70a90391701b4553f2e7d07a1f33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 24/52] fix: let sklearn recognise the estimator as a regressor

Mixins have to come before BaseEstimator for is_regressor and friends.
---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 8a83de2..1924413 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -37,7 +37,7 @@ def delayed_run_chain():
     return run_chain
 
 
-class SklearnModel(BaseEstimator, RegressorMixin):
+class SklearnModel(RegressorMixin, BaseEstimator):
     """
     The main access point to building BART models in BartPy
 
-- 
2.43.0


From 9ec6e755496468daf58199c0d3c16bf57df2995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 25/52] fix: make the sklearn tree initializer work again

The covariate matrix and target have no data attribute any more, and sklearn has
renamed the 'ls' loss, so the default initializer of Model always failed.
---
 bartpy/initializers/sklearntreeinitializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 3455065..80ef22a 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -20,7 +20,7 @@ class SklearnTreeInitializer(Initializer):
     def __init__(self,
                  max_depth: int=4,
                  min_samples_split: int=2,
-                 loss: str='ls'):
+                 loss: str='squared_error'):
         self.max_depth = max_depth
         self.min_samples_split = min_samples_split
         self.loss = loss
@@ -36,7 +36,7 @@ class SklearnTreeInitializer(Initializer):
         }
 
         clf = GradientBoostingRegressor(**params)
-        fit = clf.fit(tree.nodes[0].data.X.data, tree.nodes[0].data.y.data)
+        fit = clf.fit(tree.nodes[0].data.X.values, tree.nodes[0].data.y.values)
         sklearn_tree = fit.estimators_[0][0].tree_
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
-- 
2.43.0


From 8d545670bbe7023148793d078e802564644fd812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 26/52] fix: score permuted models on the held-out covariates

The training covariates were compared with the held-out targets.
---
 bartpy/features/featureimportance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 88c8c51..f3bcee8 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -88,7 +88,7 @@ def null_rmse_distribution(model: SklearnModel,
             permuted_X = deepcopy(X)
             permuted_X[:, variable] = np.random.permutation(permuted_X[:, variable])
             permuted_train_X_s.append(permuted_X[train_index])
-            permuted_test_X_s.append(permuted_X[train_index])
+            permuted_test_X_s.append(permuted_X[test_index])
             train_y_s.append(y[train_index])
             test_y_s.append(y[test_index])
 
-- 
2.43.0


From c4f5f645fea7024df4e35cdc518a529dfa310d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 27/52] fix: accept DataFrames in the permutation importance
 functions

They are documented to, but index the covariates like an array.
---
 bartpy/features/featureimportance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index f3bcee8..02a5967 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -6,6 +6,7 @@ import pandas as pd
 from matplotlib import pyplot as plt
 from sklearn.model_selection import KFold
 
+from bartpy.data import ensure_numpy_array
 from bartpy.runner import run_models
 from bartpy.sklearnmodel import SklearnModel
 
@@ -30,6 +31,7 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -76,6 +78,7 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From 3681cfa2999c3f2cfa0c40416bf51c67b4d6422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 28/52] fix: report split proportions as shares of the splits

Root nodes, which are not the result of a split, were counted in the denominator.
---
 bartpy/diagnostics/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index b151506..4798101 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -20,7 +20,8 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
         for tree in sample.trees:
             for node in tree.nodes:
                 splitting_var = node.split.splitting_variable
-                split_variables.append(splitting_var)
+                if splitting_var is not None:
+                    split_variables.append(splitting_var)
     counter = Counter(split_variables)
     if columns is None:
         columns = sorted(list([x for x in counter.keys() if x is not None]))
-- 
2.43.0


From 9a34a749d44e81469b8e2e07db3eee5b1f7ea68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 29/52] fix: interpret threshold percentiles on the documented
 0-1 scale

np.percentile expects 0-100, so 0.95 selected the 0.95th percentile, i.e. nearly the
minimum of the null distribution.
---
 bartpy/diagnostics/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 4798101..9560976 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -127,7 +127,7 @@ def local_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    return {feature: np.percentile(null_distributions[feature], percentile) for feature in null_distributions}
+    return {feature: np.quantile(null_distributions[feature], percentile) for feature in null_distributions}
 
 
 def global_thresholds(null_distributions: ImportanceDistributionMap, percentile: float) -> Mapping[int, float]:
@@ -158,7 +158,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     df = pd.DataFrame(null_distributions)
     for row in df.iter_rows():
         q_s.append(np.max(row))
-    threshold = np.percentile(q_s, percentile)
+    threshold = np.quantile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
 
 
-- 
2.43.0


From 26983430642d4685cf4449e382b3a49e98607b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 30/52] fix: iterate over the rows of the null distribution

DataFrame has no iter_rows, so global thresholds always failed.
---
 bartpy/diagnostics/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 9560976..6729cb2 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -156,7 +156,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     """
     q_s = []
     df = pd.DataFrame(null_distributions)
-    for row in df.iter_rows():
+    for _, row in df.iterrows():
         q_s.append(np.max(row))
     threshold = np.quantile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
-- 
2.43.0


From ee311be0d182e29ffa21130e38f6a1135e1220f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 31/52] fix: import SelectorMixin from its public location

The private module is gone from current scikit-learn.
---
 bartpy/features/featureselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 90d2f39..a01803c 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 import numpy as np
 from matplotlib import pyplot as plt
 from sklearn.base import BaseEstimator
-from sklearn.feature_selection.base import SelectorMixin
+from sklearn.feature_selection import SelectorMixin
 
 from bartpy.diagnostics.features import null_feature_split_proportions_distribution, \
     local_thresholds, global_thresholds, is_kept, feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions, \
-- 
2.43.0


From f5e8bb7c0ad2305d9795d7af219398222d8fc0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 32/52] fix: give the feature selectors one mask entry per
 column

Columns without any split were missing from the proportions, which shifted and
shortened the support mask.
---
 bartpy/features/featureselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index a01803c..5720bb1 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -22,7 +22,7 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def fit(self, X, y):
         self.model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
@@ -58,7 +58,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
         self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From 88a19407313becb33995109d44b5eb8a624d8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 33/52] fix: name the unsupported method in the feature
 selection error

---
 bartpy/features/featureselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 5720bb1..f023a3b 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -46,7 +46,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         elif method == "global":
             self.method = global_thresholds
         else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
         self.model = deepcopy(model)
         if n_trees is not None:
             self.model.n_trees = n_trees
-- 
2.43.0


From a46db04493daeebea8cffd8059d055368f2ff4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 34/52] fix: import LinearRegression from its public location

The private module is gone from current scikit-learn.
---
 bartpy/extensions/baseestimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index da6a4df..796f629 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,6 +1,6 @@
 import numpy as np
 from sklearn.base import RegressorMixin, clone
-from sklearn.linear_model.base import LinearRegression
+from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
 
-- 
2.43.0


From 1718f1014dcfa8cf1b98637323bc98f5bd66040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 35/52] fix: predict the training covariates in the extensions
 when X is None

The covariate wrapper object was handed to the base model.
---
 bartpy/extensions/baseestimator.py | 2 +-
 bartpy/extensions/ols.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 796f629..43e53a6 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -25,7 +25,7 @@ class ResidualBART(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 88d0ee9..8428688 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -21,7 +21,7 @@ class OLS(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
-- 
2.43.0


From 937dc8431ddf039c92500062e76a292862b1f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 36/52] fix: compare the extensions' predictions with the
 original target

Without an explicit target, residuals() subtracted the combined prediction from the
base model's residuals, i.e. the base prediction was subtracted twice.
---
 bartpy/extensions/baseestimator.py | 5 +++++
 bartpy/extensions/ols.py           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 43e53a6..b43b3ed 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -29,3 +29,8 @@ class ResidualBART(SklearnModel):
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.base_estimator.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 8428688..a508c93 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -25,3 +25,8 @@ class OLS(SklearnModel):
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.stat_model_fit.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
-- 
2.43.0


From 5b498f89bb347288a755aa067bf0547ab0df6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 37/52] fix: keep the BART parameters of the extensions in
 get_params and clone

They are passed on as keyword arguments, which sklearn does not see, so cloning (and
with it cross validation) silently fell back on the defaults.
---
 bartpy/extensions/baseestimator.py | 4 ++++
 bartpy/extensions/ols.py           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index b43b3ed..f389d9d 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -18,6 +18,10 @@ class ResidualBART(SklearnModel):
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
         self.base_estimator.fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index a508c93..3001d3f 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -14,6 +14,10 @@ class OLS(SklearnModel):
         self.stat_model_fit = None
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
         self.stat_model_fit = self.stat_model(y, X).fit()
         SklearnModel.fit(self, X, self.stat_model_fit.resid)
-- 
2.43.0


From 58bd36f02e8e20993b140062a7fb88bfcfbd03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 38/52] fix: pass x and y to regplot by keyword

Current seaborn does not take them positionally, so the diagnostics plot failed.
---
 bartpy/diagnostics/residuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/residuals.py b/bartpy/diagnostics/residuals.py
index ede98f1..4bd7102 100644
--- a/bartpy/diagnostics/residuals.py
+++ b/bartpy/diagnostics/residuals.py
@@ -17,7 +17,7 @@ def plot_qq(model: SklearnModel, ax=None) -> None:
 def plot_homoskedasity_diagnostics(model: SklearnModel, ax=None):
     if ax is None:
         _, ax = plt.subplots(1, 1, figsize=(5, 5))
-    sns.regplot(model.predict(model.data.X.values), model.residuals(model.data.X.values), ax=ax)
+    sns.regplot(x=model.predict(model.data.X.values), y=model.residuals(model.data.X.values), ax=ax)
     ax.set_title("Fitted Values V Residuals")
     ax.set_xlabel("Fitted Value")
     ax.set_ylabel("Residual")
-- 
2.43.0


From a2440ad51327128cba9898ed1d4b8448f0b40ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 39/52] fix: read the target from the right object in the plots

---
 bartpy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index e8dc2ee..21231d6 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,11 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y - model.predict())
+    plt.plot(model.data.y.unnormalized_y - model.predict())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y)
+    plt.plot(model.data.y.unnormalized_y)
     plt.plot(model.predict())
     plt.show()
-- 
2.43.0


From b4b70fc67b7f3632063088a2b5dccd7827dc8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 40/52] fix: give every chain its own model when chains run in
 threads

Chains passed their model around through an attribute of the shared estimator, so
with joblib's threading backend two chains could end up sampling the same model.
---
 bartpy/sklearnmodel.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 1924413..4621e3e 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -24,8 +24,8 @@ def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
     Run a single chain for a model
     Primarily used as a building block for constructing a parallel run of multiple chains
     """
-    model.model = model._construct_model(X, y)
-    return model.sampler.samples(model.model,
+    chain_model = model._construct_model(X, y)
+    return model.sampler.samples(chain_model,
                                  model.n_samples,
                                  model.n_burn,
                                  model.thin,
@@ -165,15 +165,16 @@ class SklearnModel(RegressorMixin, BaseEstimator):
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
             raise ValueError("Empty covariate matrix passed")
-        self.data = self._convert_covariates_to_data(X, y)
-        self.sigma = Sigma(self.sigma_a, self.sigma_b, self.data.y.normalizing_scale)
-        self.model = Model(self.data,
-                           self.sigma,
-                           n_trees=self.n_trees,
-                           alpha=self.alpha,
-                           beta=self.beta,
-                           initializer=self.initializer)
-        return self.model
+        data = self._convert_covariates_to_data(X, y)
+        sigma = Sigma(self.sigma_a, self.sigma_b, data.y.normalizing_scale)
+        model = Model(data,
+                      sigma,
+                      n_trees=self.n_trees,
+                      alpha=self.alpha,
+                      beta=self.beta,
+                      initializer=self.initializer)
+        self.data, self.sigma, self.model = data, sigma, model
+        return model
 
     def f_delayed_chains(self, X: np.ndarray, y: np.ndarray):
         """
-- 
2.43.0


From 516fcaa61ee769f427528f12f2fa3f7db3b5c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 41/52] fix: never reuse cached random draws across chains

The samplers' batches of random numbers were shared by all estimators of a process
and copied to every worker: chains run in parallel after a sequential fit repeated
each other's draws, and a seeded fit depended on what was fitted before.
---
 bartpy/samplers/scalar.py | 18 +++++++++++++++---
 bartpy/sklearnmodel.py    | 13 +++++++------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 4694e31..21c7e43 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -3,7 +3,19 @@ from typing import Any, List
 import numpy as np
 
 
-class NormalScalarSampler():
+class CachedSampler():
+    """
+    Base of the samplers that draw in batches
+    Copies start with an empty cache, otherwise they would repeat the draws of the original
+    """
+
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        state["_cache"] = []
+        return state
+
+
+class NormalScalarSampler(CachedSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -19,7 +31,7 @@ class NormalScalarSampler():
         self._cache = list(np.random.normal(size=self._cache_size))
 
 
-class UniformScalarSampler():
+class UniformScalarSampler(CachedSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -35,7 +47,7 @@ class UniformScalarSampler():
         self._cache = list(np.random.uniform(size=self._cache_size))
 
 
-class DiscreteSampler():
+class DiscreteSampler(CachedSampler):
 
     def __init__(self,
                  values: List[Any],
diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 4621e3e..ae50438 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -25,12 +25,13 @@ def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
     Primarily used as a building block for constructing a parallel run of multiple chains
     """
     chain_model = model._construct_model(X, y)
-    return model.sampler.samples(chain_model,
-                                 model.n_samples,
-                                 model.n_burn,
-                                 model.thin,
-                                 model.store_in_sample_predictions,
-                                 model.store_acceptance_trace)
+    sampler = deepcopy(model.sampler)
+    return sampler.samples(chain_model,
+                           model.n_samples,
+                           model.n_burn,
+                           model.thin,
+                           model.store_in_sample_predictions,
+                           model.store_acceptance_trace)
 
 
 def delayed_run_chain():
-- 
2.43.0


From eb23e2d1ce327769d3c670e2c21a73d2d74048f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 42/52] fix: draw the split proportions on the given axes

---
 bartpy/diagnostics/features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 6729cb2..89cd8ea 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -44,11 +44,11 @@ def plot_feature_split_proportions(model: SklearnModel, ax=None):
     y_pos = np.arange(len(proportions))
     name, count = list(proportions.keys()), list(proportions.values())
     props = pd.DataFrame({"name": name, "counts": count}).sort_values("name", ascending=True)
-    plt.barh(y_pos, props.counts, align='center', alpha=0.5)
-    plt.yticks(y_pos, props.name)
-    plt.xlabel('Proportion of all splits')
-    plt.ylabel('Feature')
-    plt.title('Proportion of Splits Made on Each Variable')
+    ax.barh(y_pos, props.counts, align='center', alpha=0.5)
+    ax.set_yticks(y_pos, props.name)
+    ax.set_xlabel('Proportion of all splits')
+    ax.set_ylabel('Feature')
+    ax.set_title('Proportion of Splits Made on Each Variable')
     return ax
 
 
-- 
2.43.0


From 3fda2c99283b50f4736b585ccc9e454db1bf0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 43/52] fix: do not leave a node's count and sum behind in the
 caller's condition

split_node stored them in the condition it was given; applying that condition to
other data afterwards took over the wrong count and sum.
---
 bartpy/node.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bartpy/node.py b/bartpy/node.py
index 80bd841..5f8c909 100644
--- a/bartpy/node.py
+++ b/bartpy/node.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Union, Tuple
 
 from bartpy.data import Data
@@ -88,10 +89,11 @@ def split_node(node: LeafNode, split_conditions: Tuple[SplitCondition, SplitCond
     The left node contains all values for the splitting variable less than the splitting value
     """
     left_split = node.split + split_conditions[0]
-    split_conditions[1].carry_n_obsv = node.data.X.n_obsv - left_split.data.X.n_obsv
-    split_conditions[1].carry_y_sum = node.data.y.summed_y() - left_split.data.y.summed_y()
+    right_condition = copy(split_conditions[1])
+    right_condition.carry_n_obsv = node.data.X.n_obsv - left_split.data.X.n_obsv
+    right_condition.carry_y_sum = node.data.y.summed_y() - left_split.data.y.summed_y()
 
-    right_split = node.split + split_conditions[1]
+    right_split = node.split + right_condition
 
     return DecisionNode(node.split,
                         LeafNode(left_split, depth=node.depth + 1),
-- 
2.43.0


From 3433f24ad6e8b4e50c40e20d1d469f861e526c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:53 +0000
Subject: [PATCH 44/52] fix: tell scikit-learn whether the model is fitted, so
 that it can be the last step of a Pipeline

---
 bartpy/sklearnmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index ae50438..cc1086f 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -128,6 +128,9 @@ class SklearnModel(RegressorMixin, BaseEstimator):
             self.schedule.tree_sampler = self.tree_sampler
         return self
 
+    def __sklearn_is_fitted__(self) -> bool:
+        return self._model_samples is not None
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From fe6194d1a6fc353c105d00fc2a15ff871177d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:35 +0000
Subject: [PATCH 45/52] fix: a single-leaf sklearn tree keeps its value when
 mapped into a tree

---
 bartpy/initializers/sklearntreeinitializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 80ef22a..421f3aa 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -63,6 +63,7 @@ def map_sklearn_split_into_bartpy_split_conditions(sklearn_tree, index: int) ->
 def map_sklearn_tree_into_bartpy(bartpy_tree: Tree, sklearn_tree):
     nodes = [None for x in sklearn_tree.children_left]
     nodes[0] = bartpy_tree.nodes[0]
+    nodes[0].set_value(sklearn_tree.value[0][0][0])
 
     def search(index: int=0):
 
-- 
2.43.0


From 3bb92d434f0dc6c7f86c86d716e1a714e32c2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:36 +0000
Subject: [PATCH 46/52] fix: draw the residual plots also for models without
 stored in-sample predictions

---
 bartpy/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index 21231d6..d985de1 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,12 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.y.unnormalized_y - model.predict())
+    plt.plot(model.residuals(model.data.X.values))
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.y.unnormalized_y)
-    plt.plot(model.predict())
+    modelled = model.predict(model.data.X.values)
+    plt.plot(modelled + model.residuals(model.data.X.values))
+    plt.plot(modelled)
     plt.show()
-- 
2.43.0


From b527499f51a71bad6c1da7b5871a1e589c695550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:39 +0000
Subject: [PATCH 47/52] fix: pair rows and targets by position in the
 permutation importance functions

---
 bartpy/features/featureimportance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 02a5967..468fee5 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -32,6 +32,7 @@ def original_model_rmse(model: SklearnModel,
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
     X = ensure_numpy_array(X)
+    y = np.asarray(y)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -79,6 +80,7 @@ def null_rmse_distribution(model: SklearnModel,
     """
 
     X = ensure_numpy_array(X)
+    y = np.asarray(y)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From ecf402c477e1ddc353a03714ee8a6b158846909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 48/52] fix: let the discrete sampler return the given values
 unchanged

---
 bartpy/samplers/scalar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 21c7e43..6ead0b9 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -66,4 +66,5 @@ class DiscreteSampler(CachedSampler):
         return self._cache.pop()
 
     def refresh_cache(self):
-        self._cache = list(np.random.choice(self._values, p=self._probas, size=self._cache_size))
+        draws = np.random.choice(len(self._values), p=self._probas, size=self._cache_size)
+        self._cache = [self._values[i] for i in draws]
-- 
2.43.0


From 51360e88629e52b3012112ea289bb7589ba949c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:49 +0000
Subject: [PATCH 49/52] fix: fit the extension's own copy of the base estimator

---
 bartpy/extensions/baseestimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index f389d9d..941df5d 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -23,6 +23,7 @@ class ResidualBART(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
+        self.base_estimator = clone(self.base_estimator)
         self.base_estimator.fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
         return self
-- 
2.43.0


From ec7bf3210f7ca35c8959d8f5d00912ec181889bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 50/52] fix: keep nothing of a fit that does not finish

---
 bartpy/extensions/baseestimator.py |  7 ++++---
 bartpy/extensions/ols.py           |  5 +++--
 bartpy/sklearnmodel.py             | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 941df5d..2661afe 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -23,9 +23,10 @@ class ResidualBART(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
-        self.base_estimator = clone(self.base_estimator)
-        self.base_estimator.fit(X, y)
-        SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
+        base_estimator = clone(self.base_estimator)
+        base_estimator.fit(X, y)
+        SklearnModel.fit(self, X, y - base_estimator.predict(X))
+        self.base_estimator = base_estimator
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 3001d3f..a6078ac 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -19,8 +19,9 @@ class OLS(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
-        self.stat_model_fit = self.stat_model(y, X).fit()
-        SklearnModel.fit(self, X, self.stat_model_fit.resid)
+        stat_model_fit = self.stat_model(y, X).fit()
+        SklearnModel.fit(self, X, stat_model_fit.resid)
+        self.stat_model_fit = stat_model_fit
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index cc1086f..ddcf4b3 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -147,9 +147,12 @@ class SklearnModel(RegressorMixin, BaseEstimator):
         SklearnModel
             self with trained parameter values
         """
-        self.model = self._construct_model(X, y)
-        self.extract = Parallel(n_jobs=self.n_jobs)(self.f_delayed_chains(X, y))
-        self.combined_chains = self._combine_chains(self.extract)
+        model = self._construct_model(X, y)
+        extract = Parallel(n_jobs=self.n_jobs)(self.f_delayed_chains(X, y))
+        combined_chains = self._combine_chains(extract)
+        # nothing is kept of a fit that does not finish
+        self.data, self.sigma, self.model = model.data, model.sigma, model
+        self.extract, self.combined_chains = extract, combined_chains
         self._model_samples, self._prediction_samples = self.combined_chains["model"], self.combined_chains["in_sample_predictions"]
         self._acceptance_trace = self.combined_chains["acceptance"]
         return self
@@ -177,7 +180,6 @@ class SklearnModel(RegressorMixin, BaseEstimator):
                       alpha=self.alpha,
                       beta=self.beta,
                       initializer=self.initializer)
-        self.data, self.sigma, self.model = data, sigma, model
         return model
 
     def f_delayed_chains(self, X: np.ndarray, y: np.ndarray):
-- 
2.43.0


From 4a5f96c063460c2b585621e0ba3baad34994139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:56 +0000
Subject: [PATCH 51/52] fix: let from_extract's model hold the samples it was
 given

---
 bartpy/sklearnmodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index ddcf4b3..b187651 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -369,6 +369,7 @@ class SklearnModel(RegressorMixin, BaseEstimator):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
+        new_model.extract, new_model.combined_chains = extract, combined_chain
         new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
         new_model._acceptance_trace = combined_chain["acceptance"]
         new_model.data = self._convert_covariates_to_data(X, y)
-- 
2.43.0


From 85527183d34ce19384261b18b827b417a2181185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:07 +0000
Subject: [PATCH 52/52] fix: let batch runs of the extensions fit a base model
 per data set

---
 bartpy/extensions/baseestimator.py | 11 +++++++++--
 bartpy/extensions/ols.py           | 11 +++++++++--
 bartpy/runner.py                   | 11 +++++++++--
 bartpy/sklearnmodel.py             | 10 ++++++++++
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 2661afe..e40609f 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -23,11 +23,18 @@ class ResidualBART(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
+        base_estimator, residual = self._fit_base(X, y)
+        SklearnModel.fit(self, X, residual)
+        self._set_base(base_estimator)
+        return self
+
+    def _fit_base(self, X: np.ndarray, y: np.ndarray):
         base_estimator = clone(self.base_estimator)
         base_estimator.fit(X, y)
-        SklearnModel.fit(self, X, y - base_estimator.predict(X))
+        return base_estimator, y - base_estimator.predict(X)
+
+    def _set_base(self, base_estimator: RegressorMixin) -> None:
         self.base_estimator = base_estimator
-        return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index a6078ac..ce12dd5 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -19,10 +19,17 @@ class OLS(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
+        stat_model_fit, residual = self._fit_base(X, y)
+        SklearnModel.fit(self, X, residual)
+        self._set_base(stat_model_fit)
+        return self
+
+    def _fit_base(self, X: np.ndarray, y: np.ndarray):
         stat_model_fit = self.stat_model(y, X).fit()
-        SklearnModel.fit(self, X, stat_model_fit.resid)
+        return stat_model_fit, stat_model_fit.resid
+
+    def _set_base(self, stat_model_fit) -> None:
         self.stat_model_fit = stat_model_fit
-        return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
diff --git a/bartpy/runner.py b/bartpy/runner.py
index 13ffd87..d663ff5 100644
--- a/bartpy/runner.py
+++ b/bartpy/runner.py
@@ -46,10 +46,17 @@ def run_models(model: SklearnModel, X_s: List[np.ndarray], y_s: List[np.ndarray]
         List of trained SklearnModels for each of the input data sets
     """
     delayed_chains = []
+    bases, targets = [], []
     for X, y in zip(X_s, y_s):
         permuted_model = deepcopy(model)
-        delayed_chains += permuted_model.f_delayed_chains(X, y)
+        base, target = permuted_model._fit_base(X, y)
+        bases.append(base)
+        targets.append(target)
+        delayed_chains += permuted_model.f_delayed_chains(X, target)
 
     n_jobs = model.n_jobs
     chains = Parallel(n_jobs)(delayed_chains)
-    return convert_chains_models(model, X_s, y_s, chains)
+    fit_models = convert_chains_models(model, X_s, targets, chains)
+    for fit_model, base in zip(fit_models, bases):
+        fit_model._set_base(base)
+    return fit_models
diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index b187651..42bcedb 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -157,6 +157,16 @@ class SklearnModel(RegressorMixin, BaseEstimator):
         self._acceptance_trace = self.combined_chains["acceptance"]
         return self
 
+    def _fit_base(self, X: np.ndarray, y: np.ndarray):
+        """
+        Fit the model the trees are added to, if there is one
+        Returns it and the part of the target that is left to the trees
+        """
+        return None, y
+
+    def _set_base(self, base) -> None:
+        pass
+
     @staticmethod
     def _combine_chains(extract: List[Chain]) -> Chain:
         keys = list(extract[0].keys())
-- 
2.43.0

