From a81ad5be716bb65519f6a83aafd7c0afc42e0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 001/146] fix: matricize a full tensor with all its dimensions
 as rows

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..471232f 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -1110,7 +1110,7 @@ class FullTensor:
 
         tensor = FullTensor(self)
         tensor = tensor.transpose(np.concatenate((dims1, dims2)))
-        tensor = tensor.reshape([np.prod(shape1), np.prod(shape2)])
+        tensor = tensor.reshape([np.prod(shape1, dtype=int), np.prod(shape2, dtype=int)])
         return FullTensor(tensor)
 
     def outer_product_eval_diag(self, tensor2, dims1, dims2, diag=False):
-- 
2.43.0


From e07ce0d0bc9d7a12033c8d8f2ba4f313ae6a8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 002/146] fix: Kronecker product of full tensors of different
 orders

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 471232f..9c65f2e 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -675,7 +675,7 @@ class FullTensor:
             ),
             shape1 * shape2,
         )
-        return FullTensor(data, shape=self.shape * tensor2.shape)
+        return FullTensor(data)
 
     def orth(self, dim=None):
         """
-- 
2.43.0


From 6c3f090970ea319cd53ce824050acbd1ee9bfbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 003/146] fix: partial evaluation of a full tensor at indices
 of several dimensions

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 9c65f2e..bf608a0 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -331,7 +331,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From ed454fcdca742cbc16f7493748ccb85a06c8296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 004/146] fix: TreeBasedTensor.full rewrote the dimensions
 stored in the tree of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..de1ec0e 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -531,6 +531,7 @@ class TreeBasedTensor:
             return a
 
         tensors = np.array(self.tensors)
+        nod_dims = list(tree.dims)
 
         for level in np.arange(np.max(tree.level), -1, -1):
             nod_level = tensap.fast_setdiff(tree.nodes_with_level(level), tree.dim2ind)
@@ -545,10 +546,10 @@ class TreeBasedTensor:
                             [dims.size],
                         )
                         tensors[child - 1] = None
-                        dims = np.concatenate((tree.dims[child - 1], dims))
+                        dims = np.concatenate((nod_dims[child - 1], dims))
                     else:
-                        dims = np.concatenate((dims, tree.dims[child - 1]))
-                tree.dims[nod - 1] = dims
+                        dims = np.concatenate((dims, nod_dims[child - 1]))
+                nod_dims[nod - 1] = dims
 
         tensor = tensors[tree.root - 1]
         if tensor.order > self.order:
-- 
2.43.0


From ed758dd677be0b627ca41b6cea9e0abf80c42b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 005/146] fix: root rank of the product of a matrix with a
 tree-based tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index de1ec0e..7ef071b 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -347,7 +347,7 @@ class TreeBasedTensor:
             tensor.tensors[root] = tensor.tensors[root].tensor_matrix_product(
                 arg, tensor.tensors[root].order - 1
             )
-            tensor.ranks[root] = arg.shape[1]
+            tensor.ranks[root] = arg.shape[0]
         else:
             raise ValueError("Wrong shapes.")
         return tensor
-- 
2.43.0


From fad82917baf6bf439a0423a9af7a720c5d1ef6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 006/146] fix: TreeBasedTensor.tensor_train with a list of
 cores and dims

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7ef071b..3bcf217 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2692,7 +2692,7 @@ class TreeBasedTensor:
         tree = tensap.DimensionTree.linear(order)
         tensors = np.empty(tree.nb_nodes, dtype="object")
         if dims is not None:
-            cores = cores[np.argsort(dims)]
+            cores = [cores[i] for i in np.argsort(dims)]
 
         dim2ind = tree.dim2ind
         nod = dim2ind[0]
-- 
2.43.0


From 85d696c1b4e10bc9284857d8bd22073d7429cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 007/146] fix: is_admissible_rank gave inactive leaves the
 sizes of other dimensions

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 3bcf217..4daf997 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -447,9 +447,9 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[
+                self.non_active_dims
+            ]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
-- 
2.43.0


From 3ce2b4feeea3765930c2cb6afa2f6f0e6d522bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 008/146] fix: CanonicalTensor.eval_diag overwrote a factor of
 the tensor and failed on a subset of the dimensions

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..55b5f20 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -345,19 +345,15 @@ class CanonicalTensor:
 
         out = self.space[dims[0]]
         for k in dims[1:]:
-            out *= self.space[k]
+            out = out * self.space[k]
 
         if is_none or dims.size == self.order:
             out = tensap.FullTensor(np.matmul(out, self.core.data))
         else:
             space = list(self.space)
-            core = deepcopy(self.core)
-
             space[dims[0]] = out
-            space = space[new_dims]
-            core.shape = core.shape[new_dims]
-            core.order = new_dims.size
-            out = CanonicalTensor(space, core)
+            space = [space[i] for i in new_dims]
+            out = CanonicalTensor(space, np.array(self.core.data))
         return out
 
     def dot(self, tensor_2):
-- 
2.43.0


From 6ef726dc46f0dad9892850bc0232ce6713085baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 009/146] fix: DiagonalTensor.eval_diag on dimensions that are
 not contiguous

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..2947f11 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -577,9 +577,7 @@ class DiagonalTensor:
             out = np.array(self.data)
         else:
             dims = np.sort(np.atleast_1d(dims))
-            rep = np.concatenate(
-                (np.arange(dims[0] + 1), np.arange(dims[-1] + 1, self.order))
-            )
+            rep = np.setdiff1d(np.arange(self.order), dims[1:])
             out = deepcopy(self)
             out.shape = out.shape[rep]
             out.order = np.size(rep)
-- 
2.43.0


From c40202401a02de775d5809ad605387a8ca95441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 010/146] fix: DiagonalTensor.dot_with_rank_one_metric
 transposed the matrices of a list

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 2947f11..4bba59a 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -501,7 +501,7 @@ class DiagonalTensor:
 
         """
         if isinstance(matrix, list):
-            matrix = np.hstack([np.reshape(x, [-1, 1]) for x in matrix])
+            matrix = np.hstack([np.reshape(x, [-1, 1], order="F") for x in matrix])
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-- 
2.43.0


From e52c6309c2fad523573306c910658cd24183a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 011/146] fix: sparse tensors of order one, with one entry, or
 made from a list

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 28c880b..8dbdc91 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -81,7 +81,7 @@ class SparseTensor:
                 self.shape = np.shape(data)
 
                 rep = np.nonzero(data)
-                self.data = data[rep]
+                self.data = np.asarray(data)[rep]
                 self.indices = tensap.MultiIndices(
                     np.hstack([np.reshape(x, [-1, 1]) for x in rep])
                 )
@@ -108,8 +108,8 @@ class SparseTensor:
             ), "data and indices must have the same number of elements."
         else:
             raise ValueError("Wrong input arguments.")
-        self.data = np.squeeze(self.data)
-        self.shape = np.squeeze(self.shape)
+        self.data = np.atleast_1d(np.squeeze(self.data))
+        self.shape = np.atleast_1d(np.squeeze(self.shape))
 
     @property
     def size(self):
-- 
2.43.0


From 8002616f5e722a6c2624de2db8670d522d8151fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 012/146] fix: SparseTensor.tensor_vector_product kept the data
 of the previous contraction and changed dims

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 8dbdc91..31a9f13 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -308,7 +308,7 @@ class SparseTensor:
             assert len(vectors) == self.order, "len(vectors) must be self.order."
             dims = np.arange(self.order)
         else:
-            dims = np.array(dims)
+            dims = np.atleast_1d(dims)
             if not isinstance(vectors, list):
                 vectors = [vectors]
             assert len(vectors) == dims.size, "len(vectors) must be equal to dims.size."
@@ -330,15 +330,19 @@ class SparseTensor:
             ]
             out.indices.array = out.indices.array[a != 0, :]
 
+            a = a[a != 0]
             if out.indices.array.size != 0:
                 out.indices.array, ind = np.unique(
                     out.indices.array, axis=0, return_inverse=True
                 )
 
-                a = a[a != 0]
-                out.data = np.bincount(ind, weights=a)
+                out.data = np.bincount(np.ravel(ind), weights=a)
+            elif out.indices.array.shape[1] == 0:
+                out.data = np.sum(a)
+            else:
+                out.data = a
 
-            dims -= dims > dims[i]
+            dims = dims - (dims > dims[i])
 
         out.order -= len(vectors)
 
-- 
2.43.0


From 128bc9998558e153060fced9a695638c70c57ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 013/146] fix: products of sparse tensors with diagonal
 matrices, of order one, and of zero tensors

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 31a9f13..bb780e8 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -391,8 +391,6 @@ class SparseTensor:
         for mu in dims:
             perm_dims = np.concatenate(([mu], np.setdiff1d(np.arange(out.order), mu)))
             out = out.transpose(perm_dims)
-            if out.order == 1:
-                out.shape[1] = 1
             ind = tensap.MultiIndices(out.indices.array[out.data != 0, :]).sub2ind(
                 out.shape
             )
@@ -402,7 +400,7 @@ class SparseTensor:
             x2u, x2uind = np.unique(x2, return_inverse=True)
             s = coo_matrix(
                 (out.data[out.data != 0], (x1, x2uind)),
-                shape=(out.shape[0], np.max(x2uind) + 1),
+                shape=(out.shape[0], x2u.size),
             )
             a = np.transpose(s.transpose().dot(np.transpose(matrices[k])))
             y1, y2 = np.nonzero(a)
@@ -531,12 +529,12 @@ class SparseTensor:
             assert len(matrices) == self.order, "len(matrices) must be self.order."
             dims = range(self.order)
         else:
-            dims = np.array(dims)
+            dims = np.atleast_1d(dims)
             assert (
                 len(matrices) == dims.size
             ), "len(matrices) must be equal to dims.size."
 
-        matrices = [tensap.FullTensor(np.diag(np.reshape(x, [-1]))) for x in matrices]
+        matrices = [np.diag(np.reshape(x, [-1])) for x in matrices]
         return self.tensor_matrix_product(matrices, dims)
 
     def dot(self, y):
-- 
2.43.0


From b725fd2d0ddea9c38b79a4682e81287dd956d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 014/146] fix: gradient with respect to the root when all its
 children are inactive leaves

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 4daf997..644ce2c 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2117,7 +2117,9 @@ class TreeBasedTensor:
                 else:
                     ch_nb = tree.child_number(inactive_ch) - 1
                     if np.size(inactive_ch) > 1:
-                        diag_below[nod - 1] = diag_below[nod - 1].eval_diag(ch_nb)
+                        diag_below[nod - 1] = tensap.FullTensor(
+                            diag_below[nod - 1].eval_diag(ch_nb)
+                        )
                     perm = np.concatenate(
                         (
                             [ch_nb[0]],
-- 
2.43.0


From 43b3b9b890419e8730c3b518ce136fca74e603bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 015/146] fix: TreeBasedTensor.eval_diag on the dimensions of a
 node overwrote a node of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 644ce2c..5cdfcbd 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1268,7 +1268,8 @@ class TreeBasedTensor:
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
             xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1286,7 +1287,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From 16c39516044fe0da111fc06d5e8d05d1d23ac3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 016/146] fix: rank used by orth_at_node counted the rounding
 errors of the Gram matrix

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 5cdfcbd..4aa246a 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1824,7 +1824,7 @@ class TreeBasedTensor:
             s_svd = np.sqrt(np.abs(s_svd))
             l_svd = np.matmul(u_svd, np.diag(s_svd))
 
-            rep = np.linalg.matrix_rank(l_svd)
+            rep = np.linalg.matrix_rank(gram)
             if rep == 0:
                 print("Zero alpha-rank, returning the original tensor.")
                 return tensor
-- 
2.43.0


From 230bef15381c3aa92ed55a8168f0117c798a089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 017/146] fix: change_root kept the tensor marked as
 orthogonalised at its former root

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 4aa246a..eccd38d 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -642,6 +642,7 @@ class TreeBasedTensor:
                 r = np.concatenate([np.where(chp == l0)[0] for l0 in chnew])
                 x.tensors[nod - 1] = x.tensors[nod - 1].transpose(r)
             x.tree = tnew
+            x.is_orth = False
             x = x.update_attributes()
         return x
 
-- 
2.43.0


From ede8314472f4e8910a0ff61948d5fd8e095eac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 018/146] fix: permute_leaves overwrote the permutation it is
 given

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index eccd38d..44f47fa 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1055,7 +1055,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(perm, ndmin=1)
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
-- 
2.43.0


From fb6200e65e50c2ad20703ab5d0b855c4467a3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 019/146] fix: nodes_permutation_cost overwrote the ranks of
 the tensor, with sizes of other dimensions

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 44f47fa..c3ab3b7 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -708,9 +708,9 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
+        ranks = np.array(self.ranks)
+        ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[
+            self.non_active_dims
         ]
 
         cost = np.zeros(tree.nb_nodes)
-- 
2.43.0


From 8635b304d078bc4a58221557f5a504db8a5672d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 020/146] fix: remove_unique_children overwrote the nodes and
 the tree of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index c3ab3b7..82da852 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1621,10 +1621,10 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.array(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
-- 
2.43.0


From 7bfbb49e6e295a12f3478d624a769859cd0209dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 021/146] fix: hosvd and hsvd overwrote the maximal ranks of
 the truncator

---
 tensap/tensor_algebra/tools/truncator.py | 36 +++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..78eb386 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -133,7 +133,7 @@ class Truncator:
             raise ValueError("Wrong tensor order.")
         return out
 
-    def trunc_svd(self, matrix, tolerance=None, power=2):
+    def trunc_svd(self, matrix, tolerance=None, power=2, max_rank=None):
         """
         Compute the truncated svd of the matrix x with relative precision
         self.tolerance (or tolerance if provided) in Schatten p-norm (with p
@@ -149,6 +149,8 @@ class Truncator:
         power : int or 'inf' or float('inf') or numpy.inf, optional
             The integer p of the Schatten-p norm (1 <= p <= inf, p = 2 for
             Frobenius). The default is 2.
+        max_rank : int, optional
+            The maximal rank. The default is self.max_rank.
 
         Returns
         -------
@@ -158,6 +160,8 @@ class Truncator:
         """
         if tolerance is None:
             tolerance = self.tolerance
+        if max_rank is None:
+            max_rank = self.max_rank
 
         left, sin_val, right = np.linalg.svd(matrix, full_matrices=False)
         if power in ("inf", float("inf"), np.inf):
@@ -175,7 +179,7 @@ class Truncator:
         else:
             ind = np.min(ind) + 1
 
-        ind = int(np.min([ind, self.max_rank]))
+        ind = int(np.min([ind, max_rank]))
         if self.thresholding_parameter is not None and self.thresholding_parameter != 0:
             if self.thresholding_type == "soft":
                 sin_val -= self.thresholding_parameter
@@ -269,8 +273,9 @@ class Truncator:
             if isinstance(tensor, tensap.FullTensor):
                 vec = np.empty(order, dtype=object)
                 for dim in range(order):
-                    self.max_rank = max_rank[dim]
-                    vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
+                    vec[dim] = self.trunc_svd(
+                        tensor.matricize(dim).numpy(), local_tol, max_rank=max_rank[dim]
+                    )
                     vec[dim] = vec[dim].space[0]
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
@@ -354,8 +359,11 @@ class Truncator:
                         if root_rank_greater_than_one:
                             rep_c = np.concatenate((rep_c, [tensor.order - 1]))
 
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
+                        tmp = self.trunc_svd(
+                            tensor.matricize(rep).numpy(),
+                            local_tol,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tensors[nod - 1] = tmp.space[0]
                         ranks[nod - 1] = tensors[nod - 1].shape[1]
                         shape_loc = np.hstack((shape[rep], ranks[nod - 1]))
@@ -398,8 +406,12 @@ class Truncator:
                     # Truncation of the Gramian in trace norm for a control
                     # of Frobenius norm of the tensor
                     if gram[nod] is not None:
-                        self.max_rank = max_rank[nod]
-                        tmp = self.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod],
+                            tolerance=local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod],
+                        )
                         shape[nod] = tmp.core.shape[0]
                         mat[nod] = np.transpose(tmp.space[0])
 
@@ -444,8 +456,12 @@ class Truncator:
                     ):
                         # Truncation of the Gramian in trace norm for a control
                         # of Frobenius norm of the tensor
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(gram[nod - 1], local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod - 1],
+                            local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tmp = np.transpose(tmp.space[0])
                         order = out.tensors[nod - 1].order
                         out.tensors[nod - 1] = out.tensors[
-- 
2.43.0


From 015235ca2e5da9c56115d8f9424a4740055de57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 022/146] fix: hsvd of a tree-based tensor marked the result as
 orthogonalised at the root although its nodes are not orthonormal

---
 tensap/tensor_algebra/tools/truncator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 78eb386..2d2961a 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -473,8 +473,7 @@ class Truncator:
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From 25c57ef81d1d1005824afb9e5d52abaf32d9648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 023/146] fix: trees with different numbers of nodes on a level
 compared equal

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..0228824 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -154,7 +154,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From 555735010c9ebf4453360add3992aa5cd8469c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 024/146] fix: multi-index constructors stopped as soon as the
 only admissible index was the first of the margin

---
 tensap/tools/multi_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..103ba3e 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -641,7 +641,7 @@ class MultiIndices:
                 M = ind.get_margin()
                 n = M.norm(p)
                 k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                if k.size == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -851,7 +851,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -886,7 +886,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From f980a9c844412d530b24752279533d40e559fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 025/146] fix: comparisons of multi-index sets overwrote their
 second operand

---
 tensap/tools/multi_indices.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 103ba3e..799bf80 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,15 +77,11 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
-            if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
             ok = np.all(self.array == J.array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
-        if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
         return np.all(self.array <= J.array, axis=1)
 
     def __add__(self, m):
-- 
2.43.0


From 9c9a745d02c5d7a41f9090f001cb0df6d429e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 026/146] fix: right addition and subtraction of multi-indices
 modified the operand and returned None

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 799bf80..bc4c631 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -88,13 +88,13 @@ class MultiIndices:
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return MultiIndices(m + self.array)
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
-- 
2.43.0


From 797d4129630d89da0403f13f1480c80ddbe03f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 027/146] fix: descending sort of multi-indices reversed the
 order of the other columns

---
 tensap/tools/multi_indices.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index bc4c631..136ff77 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -289,12 +289,8 @@ class MultiIndices:
 
         array = np.array(self.array)
         for k in np.flip(columns):
-            if k == columns[-1]:
-                ind = np.argsort(array[:, k])
-            else:
-                ind = np.argsort(array[:, k], kind="mergesort")
-            if mode == "descend":
-                ind = np.flip(ind)
+            key = -array[:, k] if mode == "descend" else array[:, k]
+            ind = np.argsort(key, kind="mergesort")
             array = array[ind, :]
         return MultiIndices(array.astype(int))
 
-- 
2.43.0


From ce482e7351294831c1be1dbd75c245de26cd6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 028/146] fix: keep_dims with one dimension given as an integer
 raised

---
 tensap/tools/multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 136ff77..5f82a66 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -412,7 +412,7 @@ class MultiIndices:
             The MultiIndices with retained dimensions.
 
         """
-        array = self.array[:, dims]
+        array = self.array[:, np.atleast_1d(dims)]
         ind = np.unique(array, axis=0, return_index=True)[1]
         array = np.array([array[index, :] for index in sorted(ind)])
         return MultiIndices(array.astype(int))
-- 
2.43.0


From 3054621684b581de387623591d50d1e912d03a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 029/146] fix: product_set of an array of indices raised, and
 overwrote the list of grids it is given

---
 tensap/tools/multi_indices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5f82a66..89a2a8f 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -729,10 +729,13 @@ class MultiIndices:
 
         """
 
+        if isinstance(L, np.ndarray) and np.ndim(L) == 1 and L.dtype != object:
+            L = [L]
+        L = list(L)
         if d is None:
             d = len(L)
         if len(L) == 1 and d > 1:
-            L = list(L) * d
+            L = L * d
 
         for i in range(len(L)):
             if isinstance(L[i], MultiIndices):
-- 
2.43.0


From c2fe5b9da22b944e9ec79853d15f0478d299d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 030/146] fix: envelope of a sequence given as a list raised

---
 tensap/tools/multi_indices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 89a2a8f..bbaaa00 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -489,6 +489,7 @@ class MultiIndices:
             + "of multi-indices."
         )
 
+        u = np.asarray(u)
         env = np.array(u)
         for i in range(n):
             ind_sup = np.all(array >= np.tile(array[i, :], (n, 1)), axis=1)
-- 
2.43.0


From b4d508ed22d908e44262ded8d26f10e09398d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 031/146] fix: product_set of a list of indices raised

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index bbaaa00..77c9d6b 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -730,9 +730,9 @@ class MultiIndices:
 
         """
 
-        if isinstance(L, np.ndarray) and np.ndim(L) == 1 and L.dtype != object:
-            L = [L]
         L = list(L)
+        if L and all(np.isscalar(x) for x in L):
+            L = [np.array(L)]
         if d is None:
             d = len(L)
         if len(L) == 1 and d > 1:
-- 
2.43.0


From b7194835d11f717c3d99cd8b4d2230ca71f7dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 032/146] fix: evaluation of a function with storage raised,
 and storage lost the first axis of one evaluation

---
 tensap/functions/function.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..a598fee 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,9 +66,11 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
+            y, f = self.store_eval(x)
             if np.ndim(y) == 2 and np.shape(y)[1] == 1:
                 y = np.squeeze(y, axis=1)
+            if return_f:
+                return y, f
             return y
         else:
             y = self.eval(x)
@@ -145,7 +147,9 @@ class Function:
             self._x_stored = x
             self._y_stored = y
 
-        return np.squeeze(y), self
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        return y, self
 
     def fplot(self, support=None, n_points=100, *args, **kwargs):
         """
-- 
2.43.0


From 906556ab8e3660fac58878ab9759c1d1e91a12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 033/146] fix: stored points and evaluations were those of the
 caller, who can modify them

---
 tensap/functions/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index a598fee..47936cc 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -144,8 +144,8 @@ class Function:
                 y = np.reshape(y, [np.size(y), 1])
 
             self.store = True
-            self._x_stored = x
-            self._y_stored = y
+            self._x_stored = np.array(x)
+            self._y_stored = np.array(y)
 
         if np.ndim(y) == 2 and np.shape(y)[1] == 1:
             y = np.squeeze(y, axis=1)
-- 
2.43.0


From caddb82f73e2ca6da3fc8e77d2ffed056dc6cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 034/146] fix: stored evaluations of array-valued functions
 mixed two orders of their entries

---
 tensap/functions/function.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 47936cc..00a291f 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -109,7 +109,7 @@ class Function:
 
             if np.prod(self.output_shape) != 1:
                 self._y_stored = np.reshape(
-                    self._y_stored, (self._y_stored.shape[0], -1), order="F"
+                    self._y_stored, (self._y_stored.shape[0], -1)
                 )
 
             y = np.zeros((x.shape[0], self._y_stored.shape[1]))
@@ -128,7 +128,6 @@ class Function:
             y = np.reshape(
                 y,
                 np.concatenate(([y.shape[0]], np.atleast_1d(self.output_shape))),
-                order="F",
             )
             if np.prod(self.output_shape) != 1:
                 self._y_stored = np.reshape(
@@ -136,7 +135,6 @@ class Function:
                     np.concatenate(
                         ([self._y_stored.shape[0]], np.atleast_1d(self.output_shape))
                     ),
-                    order="F",
                 )
         else:
             y = self.eval(x)
-- 
2.43.0


From 98fc2344521dd8a77b5dda328b527f870a652fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 035/146] fix: partial evaluation of functions without measure
 or with array values raised

---
 tensap/functions/function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 00a291f..6832a3e 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -271,10 +271,11 @@ class Function:
             grid = tensap.FullTensorGrid([x_alpha, x_not_alpha])
             return self.eval(grid.array()[:, ind])
 
-        f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
+        f_alpha = tensap.UserDefinedFunction(fun, alpha.size, self.output_shape)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
-        f_alpha.measure = self.measure.marginal(alpha)
+        if self.measure is not None:
+            f_alpha.measure = self.measure.marginal(alpha)
 
         return f_alpha
 
-- 
2.43.0


From b6ba336f48c3f55ce6d59fce7b16678b5854f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 036/146] fix: Function.random ignored the type of the measure
 it is given

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 6832a3e..f8d5752 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -310,7 +310,7 @@ class Function:
                 measure = self.measure
             else:
                 raise ValueError("Must provide a ProbabilityMeasure.")
-        elif not isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
-- 
2.43.0


From d10f49dd1382e087148f88f4a2097a2e602cdc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 037/146] fix: tensorized functions with array values raised

---
 tensap/functions/tensorizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/tensorizer.py b/tensap/functions/tensorizer.py
index 60319eb..227ef79 100644
--- a/tensap/functions/tensorizer.py
+++ b/tensap/functions/tensorizer.py
@@ -209,7 +209,9 @@ class Tensorizer:
             fun.evaluation_at_multiple_points = True
 
         f = tensap.UserDefinedFunction(
-            lambda z: fun(self.inverse_map(z)), (self.d + 1) * self.dim
+            lambda z: fun(self.inverse_map(z)),
+            (self.d + 1) * self.dim,
+            fun.output_shape,
         )
         f.evaluation_at_multiple_points = fun.evaluation_at_multiple_points
         return tensap.TensorizedFunction(f, self)
-- 
2.43.0


From a06afc482db31710212ca2fe6ff47563cd94efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 038/146] fix: tensorized functions lost the shape of their
 values

---
 tensap/functions/tensorized_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/functions/tensorized_function.py b/tensap/functions/tensorized_function.py
index 56e9c84..772fb8d 100644
--- a/tensap/functions/tensorized_function.py
+++ b/tensap/functions/tensorized_function.py
@@ -76,6 +76,8 @@ class TensorizedFunction(tensap.Function):
         self.fun = fun
         self.tens = tens
         self.dim = tens.dim
+        if hasattr(fun, "output_shape"):
+            self.output_shape = fun.output_shape
 
     def eval(self, z):
         z = np.array(z)
-- 
2.43.0


From 7cd2436e6ee5fade1cac3cb4242925bc6d9c03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 039/146] fix: FullTensorGrid overwrote the list of grids it is
 given

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From 0f8becbffd5d82cefabed5b987e46527c620be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 040/146] fix: number of digits in base b was computed with
 rounded logarithms (one too many for 124 in base 5), and was zero for 0

---
 tensap/tools/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/utils.py b/tensap/tools/utils.py
index bdb6756..86b9a11 100644
--- a/tensap/tools/utils.py
+++ b/tensap/tools/utils.py
@@ -55,7 +55,9 @@ def integer2baseb(i, b, d=None):
 
     """
     if d is None:
-        d = int(np.ceil(np.log(np.max(i) + 1) / np.log(b)))
+        d = 1
+        while b ** d <= np.max(i):
+            d += 1
 
     I0 = np.unravel_index(np.ravel(i), np.full(d, b), order="F")
     return np.fliplr(np.transpose(np.array(I0)))
-- 
2.43.0


From 76e07956e06e253958cd98d591050ce59a4d11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 041/146] fix: comparison of Hermite or Legendre polynomials
 raised AttributeError

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..d1da59e 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -67,13 +67,13 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out = (
                 self.measure == poly_2.measure
                 and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
+                    getattr(self, "_recurrence_coefficients", None),
+                    getattr(poly_2, "_recurrence_coefficients", None),
                 )
                 and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
+                    getattr(self, "_orthogonal_polynomials_norms", None),
+                    getattr(poly_2, "_orthogonal_polynomials_norms", None),
                 )
-                and self.is_orthonormal == poly_2.is_orthonormal
             )
         return out
 
-- 
2.43.0


From be1be16ad640ffb36e5d2504802ecacffbfc30aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 042/146] fix: coefficients, derivatives and moments of
 polynomials orthonormal for a measure of mass other than one were those of
 other polynomials

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index d1da59e..1fd2b81 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -109,7 +109,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         ):
             out = np.zeros(ind.shape[0])
             if ind.shape[1] == 1:
-                out[ind[:, 0] == 0] = 1
+                out[ind[:, 0] == 0] = np.sqrt(self.measure.mass())
             else:
                 out[ind[:, 0] == ind[:, 1]] = 1
         else:
@@ -138,6 +138,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
                     - np.sqrt(b[deg]) * coef[deg - 1, :]
                 ) / np.sqrt(b[deg + 1])
 
+        coef /= np.sqrt(self.measure.mass())
         return coef[ind, :]
 
     def polyval(self, ind, x):
@@ -179,7 +180,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out[:, 0] = 0
             if max_ind > 0:
                 if k == 1:
-                    out[:, 1] = 1 / np.sqrt(b[1])
+                    out[:, 1] = 1 / np.sqrt(b[1] * self.measure.mass())
                 else:
                     out[:, 1] = 0
             for deg in np.arange(2, max_ind + 1):
-- 
2.43.0


From 7e1188cd2753f83e4a886b5369d8cffa64c5f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 043/146] fix: expansion of the constant function one in
 polynomials orthonormal for a measure of mass other than one

---
 .../functions/polynomials/orthonormal_polynomials.py   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 1fd2b81..e892513 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -56,9 +56,8 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, OrthonormalPolynomials):
@@ -310,9 +309,8 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, ShiftedOrthonormalPolynomials):
-- 
2.43.0


From 61d1a1822884e28d90923568d88104e1514c9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 044/146] fix: shifted Legendre polynomials were not
 orthonormal for the Lebesgue measure on an interval of length other than two

---
 .../polynomials/orthonormal_polynomials.py    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index e892513..bab44ad 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -347,6 +347,10 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         """
         return self.shift + self.scaling * self.polynomials.truncated_domain()
 
+    def _normalization(self):
+        # the shift of a measure other than a probability changes its mass
+        return np.sqrt(self.polynomials.measure.mass() / self.measure.mass())
+
     def mean(self, ind, *measure):
         return self.polynomials.mean(ind, *measure)
 
@@ -361,16 +365,19 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         return self.polynomials.moment(ind, *measure)
 
     def polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.polyval(ind, x)
+        x = (np.asarray(x) - self.shift) / self.scaling
+        return self._normalization() * self.polynomials.polyval(ind, x)
 
     def d_polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.d_polyval(ind, x) / self.scaling
+        return self.dn_polyval(1, ind, x)
 
     def dn_polyval(self, n, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        x = (np.asarray(x) - self.shift) / self.scaling
+        return (
+            self._normalization()
+            * self.polynomials.dn_polyval(n, ind, x)
+            / (self.scaling**n)
+        )
 
     def random(self, ind, n=1, measure=None):
         """
-- 
2.43.0


From d35918757e09ebbe661ffb3879cde7f2ad9ad4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 045/146] fix: moments and means of shifted polynomials for a
 given measure were those of other polynomials

---
 .../polynomials/orthonormal_polynomials.py    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index bab44ad..3077f48 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -351,18 +351,14 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         # the shift of a measure other than a probability changes its mass
         return np.sqrt(self.polynomials.measure.mass() / self.measure.mass())
 
-    def mean(self, ind, *measure):
-        return self.polynomials.mean(ind, *measure)
-
-    def moment(self, ind, *measure):
-        if measure:
-            if measure[0] == self.measure:
-                measure = ()
-            else:
-                measure = tuple(
-                    [measure[0].shift(-self.shift / self.scaling, 1 / self.scaling)]
-                )
-        return self.polynomials.moment(ind, *measure)
+    def moment(self, ind, measure=None):
+        ind = np.atleast_2d(ind)
+        if ind.shape[1] <= 2 and (measure is None or measure == self.measure):
+            return (
+                self._normalization() ** (ind.shape[1] - 2)
+                * self.polynomials.moment(ind)
+            )
+        return super().moment(ind, measure)
 
     def polyval(self, ind, x):
         x = (np.asarray(x) - self.shift) / self.scaling
-- 
2.43.0


From 267df9793bdd6ec2b3b2638b1f5b3a0cf3760d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 046/146] fix: random evaluations of shifted polynomials were
 not evaluations at points of the given measure

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 3077f48..753ec56 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -400,9 +400,7 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
             The randomly drawn input points.
 
         """
-        fx, x = self.polynomials.random(ind, n, measure)
-        x = self.shift + self.scaling * x
-        return fx, x
+        return OrthonormalPolynomials.random(self, ind, n, measure)
 
     def roots(self, n):
         """
-- 
2.43.0


From b240bdc5a70257b8c495ee71dccc4d0c912eb4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 047/146] fix: derivatives of polynomials of order higher than
 the degrees raised

---
 tensap/functions/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index db54d37..44de866 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -104,7 +104,7 @@ class UnivariatePolynomials(ABC):
         )
         coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
         if coef.size == 0:
-            coef = np.zeros(len(ind))
+            coef = np.zeros((len(ind), 1))
         return coef
 
     def d_polyval(self, ind, x):
-- 
2.43.0


From 64e71f210104a58d6d563ffe4c9c78c383a7136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 048/146] fix: derivatives of polynomials of order higher than
 the degrees raised (order larger by two or more)

---
 tensap/functions/polynomials/polynomials.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index 44de866..73c119b 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -95,6 +95,8 @@ class UnivariatePolynomials(ABC):
             of order contained in ind.
 
         """
+        if np.max(ind) < n:
+            return np.zeros((len(ind), 1))
         coef = np.prod(
             np.tile(np.arange(np.max(ind) - n + 1), (n, 1))
             + np.tile(
-- 
2.43.0


From 81e95ddcc7168188a89f9d7ad99373274fd68181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 049/146] fix: comparison of discrete or empirical random
 variables raised

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..5e61ca3 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
-- 
2.43.0


From f4301276ee98766407647374062ffa4add3afc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 050/146] fix: quantiles of discrete random variables with
 values in any order, and at probability one

---
 tensap/functions/measures/discrete_random_variable.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..09ef1c4 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -225,12 +225,15 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         p = np.array(p)
         shape = p.shape
-        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
-        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
+        values = np.ravel(self.values)
+        order = np.argsort(values)
+        v = np.vstack(([-np.inf], np.reshape(values[order], (-1, 1))))
+        F = np.cumsum(np.concatenate(([0], self.probabilities[order])))
+        F[-1] = 1
 
         M = p.size
         p = np.tile(np.reshape(p, (1, M)), (F.size, 1))
-        F = np.tile(np.reshape(np.cumsum(F), (-1, 1)), (1, M))
+        F = np.tile(np.reshape(F, (-1, 1)), (1, M))
         return np.reshape(
             v[np.nonzero(np.cumsum(np.transpose(F >= p), 1) == 1)[1]], shape
         )
-- 
2.43.0


From e032e0f2dbd4f1ef7a6a777b29bf793538642200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 051/146] fix: discrete polynomials of high degree were missing
 for measures with large values

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 753ec56..3c4b8dc 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -897,7 +897,8 @@ class DiscretePolynomials(OrthonormalPolynomials):
                 the polynomials pn and pnm1, False otherwise.
 
             """
-            tol = 1e-5  # Tolerance for the inner product to be considered as 0
+            # Tolerance for the inner product to be considered as 0
+            tol = 1e-5 * max(1, dot_product(pn, pn, r))
 
             d1 = np.abs(dot_product(pnp1, pn, r))
             d2 = np.abs(dot_product(pnp1, pnm1, r))
-- 
2.43.0


From e588e85b67001a0382afb989197d7f99a4654858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 052/146] fix: Gauss rules and moments of discrete random
 variables raised when they need more points than there are values

---
 tensap/functions/measures/discrete_random_variable.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 09ef1c4..f061b78 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -167,7 +167,12 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         return tensap.IntegrationRule(self.values, self.probabilities)
 
-    def orthonormal_polynomials(self):
+    def gauss_integration_rule(self, nb_pts):
+        if nb_pts >= self.values.shape[0]:
+            return tensap.IntegrationRule(np.ravel(self.values), self.probabilities)
+        return super().gauss_integration_rule(nb_pts)
+
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the DiscreteRandomVariable.
-- 
2.43.0


From 9aae404aac5863d82ae8dbba3c5c1b075e508df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 053/146] fix: orthonormal polynomials of a random vector with
 given degrees raised for normal variables

---
 tensap/functions/measures/normal_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..0229e19 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -174,7 +174,7 @@ class NormalRandomVariable(tensap.RandomVariable):
         """
         return array([-inf, inf])
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the NormalRandomVariable.
-- 
2.43.0


From a6384fb643a012aede422b8480f499e9f163d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 054/146] fix: stored moments of a random variable were those
 of other orders

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 5e61ca3..30cf253 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -396,7 +396,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
         if nargout == 1:
             return out
         X = deepcopy(self)
-        X.moments = out
+        X.moments = self.moment(np.arange(np.max(ind) + 1))
         return out, X
 
     def mean(self):
-- 
2.43.0


From d8b98aecc9a5f2cc14a902087c59d94b7c46d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 055/146] fix: discretize_support of a list of values raised

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 30cf253..0607adf 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -209,7 +209,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             u = np.linspace(1 / (2 * n), 1 - 1 / (2 * n), n)
             x = s[0] + u * (s[1] - s[0])
         else:
-            x = n
+            x = np.ravel(n)
         v = np.concatenate((-np.inf, (x[1:] + x[:-1]) / 2, np.inf), axis=None)
         p = self.cdf(v[1:]) - self.cdf(v[:-1])
 
-- 
2.43.0


From 6f853da27fddd803c6bc79fc9624ad087b4e2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 056/146] fix: mean, std and variance of random vectors with
 discrete variables raised or had another shape

---
 tensap/functions/measures/random_vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..a3f1509 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -301,7 +301,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The mean of the random variable.
 
         """
-        return np.atleast_1d([x.mean() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.mean()) for x in self.random_variables])
 
     def std(self):
         """
@@ -313,7 +313,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The standard deviation of the random variable.
 
         """
-        return np.atleast_1d([x.std() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.std()) for x in self.random_variables])
 
     def variance(self):
         """
@@ -325,7 +325,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The variance of the random variable.
 
         """
-        return np.atleast_1d([x.variance() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.variance()) for x in self.random_variables])
 
     def transfer(self, Y, x):
         """
-- 
2.43.0


From e94f54787e8c616dba3dbd79a000d8bae138fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 057/146] fix: random_multi_indices overwrote the list it is
 given

---
 tensap/functions/measures/random_multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_multi_indices.py b/tensap/functions/measures/random_multi_indices.py
index f8eff61..a059149 100644
--- a/tensap/functions/measures/random_multi_indices.py
+++ b/tensap/functions/measures/random_multi_indices.py
@@ -44,7 +44,7 @@ def random_multi_indices(shape):
     order = len(shape)
 
     if np.all([isinstance(x, (list, np.ndarray)) for x in shape]):
-        ind = shape
+        ind = list(shape)
     else:
         ind = []
         for dim in range(order):
-- 
2.43.0


From c52d2366c478bf134b1d16c69ade545ccf27772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 058/146] fix: comparison of product measures of different
 dimensions or with another object

---
 tensap/functions/measures/product_measure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/product_measure.py b/tensap/functions/measures/product_measure.py
index f3630ba..145c16d 100644
--- a/tensap/functions/measures/product_measure.py
+++ b/tensap/functions/measures/product_measure.py
@@ -68,7 +68,11 @@ class ProductMeasure(tensap.Measure):
         )
 
     def __eq__(self, measure_2):
-        return np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        return (
+            isinstance(measure_2, ProductMeasure)
+            and len(self.measures) == len(measure_2.measures)
+            and bool(np.all([x == y for x, y in zip(self.measures, measure_2.measures)]))
+        )
 
     def is_discrete(self):
         return np.all([x.is_discrete() for x in self.measures])
-- 
2.43.0


From 76c3d4fecbffbbcc34f48903e35117fd1158561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 059/146] fix: empirical random variables given by a list
 raised, or aliased the array of the caller

---
 tensap/functions/measures/empirical_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 941f106..b93b4fa 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -59,7 +59,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         """
         tensap.RandomVariable.__init__(self)
 
-        self.sample = sample
+        self.sample = np.array(sample)
         #  Scott's rule [Scott, D.W. (1992) Multivariate Density Estimation.
         # Theory, Practice and Visualization. New York: Wiley.]
         self.bandwidth = 3.5 * np.std(sample) * np.size(sample) ** (-1 / 3)
-- 
2.43.0


From 24084bb5a7e0a00f15ae59d1a2af8330513551fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 060/146] fix: transfer between empirical random variables of
 samples of different sizes raised

---
 tensap/functions/measures/empirical_random_variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index b93b4fa..18e7e3e 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -91,6 +91,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         # If Y is the standard random variable associated to X
         if (
             isinstance(Y, (EmpiricalRandomVariable, tensap.EmpiricalRandomVariable))
+            and np.shape(Y.sample) == np.shape(self.sample)
             and np.linalg.norm(
                 Y.sample - (self.sample - np.mean(self.sample)) / np.std(self.sample)
             )
-- 
2.43.0


From ccc6c7fd0dec37c7434b4858e502f3e6af639e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 061/146] fix: cumulative distribution function of empirical
 random variables was not the integral of the density

---
 tensap/functions/measures/empirical_random_variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 18e7e3e..e7d42cb 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -160,7 +160,10 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         return self.sample, self.bandwidth
 
     def cdf(self, x):
-        kde = scipy.stats.gaussian_kde(self.sample, self.bandwidth)
+        # scipy scales the given factor by the standard deviation of the sample
+        kde = scipy.stats.gaussian_kde(
+            self.sample, self.bandwidth / np.std(self.sample, ddof=1)
+        )
         return np.vectorize(lambda z: kde.integrate_box_1d(-np.inf, z))(x)
 
     def icdf(self, x, *args, **kwargs):
-- 
2.43.0


From 1465bf2c2116e445d3d7a81a2892c0abc7eca70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 062/146] fix: quantiles and truncated support of empirical
 random variables recursed endlessly

---
 tensap/functions/measures/empirical_random_variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index e7d42cb..e432c29 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -123,6 +123,10 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
     def support(self):
         return np.array([-np.inf, np.inf])
 
+    def truncated_support(self, p=1 - 2e-16):
+        z = self.bandwidth * scipy.stats.norm.ppf(1 - (1 - p) / 2)
+        return np.array([np.min(self.sample) - z, np.max(self.sample) + z])
+
     def is_discrete(self):
         return True
 
-- 
2.43.0


From c6390aed59482d022dbaef3e26f9c456fc6f2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 063/146] fix: variance of empirical random variables was not
 the one of the distribution

---
 tensap/functions/measures/empirical_random_variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index e432c29..8f51258 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -209,7 +209,8 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         )
 
     def random_variable_statistics(self):
-        return np.mean(self.sample), np.var(self.sample)
+        # the distribution is a mixture of normal distributions at the sample
+        return np.mean(self.sample), np.var(self.sample) + self.bandwidth**2
 
     def random(self, n=1):
         return self.icdf(np.random.rand(int(n)))
-- 
2.43.0


From 9185599a3acf85c76fd501b184ad032447e7a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 064/146] fix: EmpiricalPolynomials of a sample raised

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 3c4b8dc..8d3bf16 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -632,7 +632,7 @@ class EmpiricalPolynomials(OrthonormalPolynomials):
             self.measure = sample.get_standard_random_variable()
         else:
             # Standardization of the sample
-            x = np.reshape(self.sample, [-1, 1])
+            x = np.reshape(sample, [-1, 1])
             x = (x - np.tile(np.mean(x, 0), (x.shape[0], 1))) / np.tile(
                 np.std(x, 0), (x.shape[0], 1)
             )
-- 
2.43.0


From 69786cd6f68f47dfe9cc86804c1b1d0b10cfcc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 065/146] fix: polynomials of degree over 100 (Legendre) or 170
 (Hermite) raised OverflowError

---
 .../polynomials/orthonormal_polynomials.py    | 24 +++----------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 8d3bf16..c7ad69d 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -20,7 +20,6 @@ Module orthonormal_polynomials.
 """
 
 from abc import abstractmethod
-import math
 import numpy as np
 import tensap
 
@@ -476,7 +475,7 @@ class HermitePolynomials(OrthonormalPolynomials):
         """
         recurr = np.zeros((2, n + 1))
         recurr[1, :] = np.arange(n + 1)
-        norms = np.array([np.sqrt(float(math.factorial(x))) for x in range(n + 1)])
+        norms = np.cumprod(np.sqrt(np.concatenate(([1], recurr[1, 1:]))))
         return recurr, norms
 
 
@@ -527,15 +526,7 @@ class LegendrePolynomials(OrthonormalPolynomials):
         """
         recurr = np.zeros((2, n + 1))
         recurr[1, :] = np.arange(n + 1) ** 2 / (4 * np.arange(n + 1) ** 2 - 1)
-        norms = np.array(
-            [
-                np.sqrt(1 / (2 * x + 1))
-                * 2**x
-                * math.factorial(x) ** 2
-                / math.factorial(2 * x)
-                for x in range(n + 1)
-            ]
-        )
+        norms = np.cumprod(np.sqrt(np.concatenate(([1], recurr[1, 1:]))))
         return recurr, norms
 
 
@@ -587,16 +578,7 @@ class LegendrePolynomialsLebesgue(OrthonormalPolynomials):
         recurr = np.zeros((2, n + 1))
         recurr[1, :] = np.arange(n + 1) ** 2 / (4 * np.arange(n + 1) ** 2 - 1)
 
-        norms = np.array(
-            [
-                np.sqrt(1 / (2 * x + 1))
-                * 2**x
-                * math.factorial(x) ** 2
-                / math.factorial(2 * x)
-                * np.sqrt(2)
-                for x in range(n + 1)
-            ]
-        )
+        norms = np.cumprod(np.sqrt(np.concatenate(([2], recurr[1, 1:]))))
         return recurr, norms
 
 
-- 
2.43.0


From e4a12ef78c78155b77e404f1fc00fac50fa5288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 066/146] fix: dimension of univariate rules, and tensorization
 of rules with points given as a column

---
 tensap/approximation/integration/integration_rules.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/integration/integration_rules.py b/tensap/approximation/integration/integration_rules.py
index 22acae2..34b8066 100644
--- a/tensap/approximation/integration/integration_rules.py
+++ b/tensap/approximation/integration/integration_rules.py
@@ -65,7 +65,7 @@ class IntegrationRule:
             The number of integration points.
 
         """
-        return self.points.shape[1]
+        return 1 if np.ndim(self.points) == 1 else self.points.shape[1]
 
     def integrate(self, fun):
         """
@@ -101,7 +101,10 @@ class IntegrationRule:
             The integration rule in dimension dim.
 
         """
-        points = tensap.FullTensorGrid(self.points, dim)
+        points = self.points
+        if np.ndim(points) > 1 and points.shape[1] == 1:
+            points = np.ravel(points)
+        points = tensap.FullTensorGrid(points, dim)
         weights = [self.weights] * dim
         return tensap.FullTensorProductIntegrationRule(points, weights)
 
-- 
2.43.0


From 1d403e6f08d9197248c067a10ac3f54df1b9f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 067/146] fix: sampling of discrete measures on several
 variables raised

---
 tensap/functions/measures/discrete_measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_measure.py b/tensap/functions/measures/discrete_measure.py
index 852ffd3..10835a4 100644
--- a/tensap/functions/measures/discrete_measure.py
+++ b/tensap/functions/measures/discrete_measure.py
@@ -166,4 +166,5 @@ class DiscreteMeasure(tensap.Measure):
             self.weights / np.sum(self.weights),
         )
         ind = Y.icdf(np.random.rand(n)).astype(int)
-        return np.squeeze(self.values[ind, :], 1)
+        x = self.values[ind, :]
+        return np.squeeze(x, 1) if x.shape[1] == 1 else x
-- 
2.43.0


From ac0c51793532418a92881cf23a010449883e66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 068/146] fix: Gauss rules of discrete variables with values of
 probability zero raised

---
 tensap/functions/measures/discrete_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index f061b78..6c8bdf6 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -168,7 +168,7 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         return tensap.IntegrationRule(self.values, self.probabilities)
 
     def gauss_integration_rule(self, nb_pts):
-        if nb_pts >= self.values.shape[0]:
+        if nb_pts >= np.count_nonzero(self.probabilities):
             return tensap.IntegrationRule(np.ravel(self.values), self.probabilities)
         return super().gauss_integration_rule(nb_pts)
 
-- 
2.43.0


From 702fed3f746e93a2ae8038610d367be14867c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 069/146] fix: coefficients of functions with several outputs
 were shuffled

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..020a930 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
-- 
2.43.0


From 21200e0ca41d9ecd489a5110471eab150e10d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 070/146] fix: projections of a function given by its values
 raised

---
 tensap/approximation/bases/functional_basis.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..9f58829 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -288,10 +288,7 @@ class FunctionalBasis:
 
         """
 
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else np.asarray(fun)
 
         A = self.eval(G.points)
         W = diags(np.sqrt(G.weights))
@@ -326,10 +323,7 @@ class FunctionalBasis:
 
         A = self.eval(G.points)
         W = diags(G.weights)
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else np.asarray(fun)
 
         u = np.matmul(np.transpose(A), W.dot(y))
 
-- 
2.43.0


From f9b2079b87fd5808c2eb3d06eb43db7a8a51147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 071/146] fix: Jacobian of univariate bases raised

---
 tensap/approximation/bases/functional_basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 9f58829..cf1bd81 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -466,7 +466,9 @@ class FunctionalBasis:
             n = self.ndim() * [0]
             n[ind] = 1
             # add an axis to concatenate
-            dnHx_i = self.eval_derivative(n, x)[:, :, None]
+            # univariate bases take the order of derivation as an integer
+            order = n if hasattr(self, "bases") else n[0]
+            dnHx_i = self.eval_derivative(order, x)[:, :, None]
             dnHx_lst.append(dnHx_i)
         out = np.concatenate(dnHx_lst, axis=2)
         return out
-- 
2.43.0


From faa49ea2e5f47d097cf94cf6f4aafc9e11835942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 072/146] fix: derivatives of sub-bases swapped the order and
 the points

---
 tensap/approximation/bases/sub_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..aa10891 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -140,7 +140,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             self.basis of degrees in self.indices at points x.
 
         """
-        return np.matmul(self.underlying_basis.eval_derivative(x, n), self.basis)
+        return np.matmul(self.underlying_basis.eval_derivative(n, x), self.basis)
 
     def derivative(self, n):
         """
-- 
2.43.0


From ffd9462519c66e99e86bdb5b63617f5e8c6bd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 073/146] fix: Jacobian of sub-bases contracted the wrong
 dimension

---
 tensap/approximation/bases/sub_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index aa10891..a2cb5ea 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -180,7 +180,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
         """
         jac = self.underlying_basis.eval_jacobian(x)
-        out = np.einsum("ij,ajk", self.basis, jac)
+        out = np.einsum("ij,aik->ajk", self.basis, jac)
         return out
 
     def mean(self):
-- 
2.43.0


From 73e588f5b340a9453f41a792250bc3903f095467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 074/146] fix: mean of piecewise polynomial bases raised

---
 .../bases/piecewise_polynomial_functional_basis.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 51c855c..188ea21 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -140,7 +140,7 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
         p2 = self.points[1:]
         h = p2 - p1
         m = np.zeros(self.cardinal())
-        q = np.cumsum(np.concatenate((0, self.p[:-1] + 1)))
+        q = np.cumsum(np.concatenate(([0], self.p[:-1] + 1)))
         m[q] = np.sqrt(h)
         return m
 
-- 
2.43.0


From c749c5da2d247fb0cbe65e8f46f81d5aeb5943ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 075/146] fix: number of functions of delta bases was the
 dimension of the values

---
 tensap/approximation/bases/delta_functional_basis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 99dce90..2d31b22 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -84,7 +84,6 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
 
     def eval(self, x):
         x = np.atleast_1d(x)
-        print(x)
         dim = self.values.shape[0]
         out = np.zeros((np.shape(x)[0], dim))
         for mu in range(dim):
@@ -99,4 +98,4 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         return self.input_dimension
 
     def cardinal(self):
-        return self.values.shape[1]
+        return self.values.shape[0]
-- 
2.43.0


From 7ac751ebc5c49cb857fa296b0c49037a8127b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 076/146] fix: dimension of dilated B-splines bases was missing

---
 tensap/approximation/bases/BSplines_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 8a7df1e..da0cf3b 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -376,7 +376,7 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
     def cardinal(self):
         return self.indices[0].size
 
-    def ndims(self):
+    def ndim(self):
         return 1
 
     def eval_derivative(self, k, x):
-- 
2.43.0


From ca6f7a81add9f84ec317c0773f0d5950cfae950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 077/146] fix: means of full tensor product bases were in the
 wrong order

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..c70e618 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -167,7 +167,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def mean(self, *args):
         H = self.bases.mean(None, *args)
         H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        return np.ravel(H.full().numpy(), order="F")
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
-- 
2.43.0


From 236f65245238cf77b2b7b67d5d639e59c3e911ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 078/146] fix: products of polynomial bases lacked the highest
 degree

---
 tensap/approximation/bases/polynomial_functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..310201b 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -136,7 +136,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
+        int_rule = measure.gauss_integration_rule(2 * m + 1)
         return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
-- 
2.43.0


From 4c7184de7997a855524cea2b0754a2cf5cb48e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 079/146] fix: products of families of bases could not be
 evaluated

---
 tensap/approximation/bases/functional_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..53f6a3a 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -174,7 +174,7 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
+        out.bases = np.array([x.kron(y) for x, y in zip(self.bases, g.bases)])
         return out
 
     def remove_bases(self, ind):
-- 
2.43.0


From 7bd985ad96a4a9371c93a0a341e34f5de2fc13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 080/146] fix: dimension of delta bases with values in several
 dimensions

---
 tensap/approximation/bases/delta_functional_basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 2d31b22..d016672 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -79,6 +79,8 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
 
         if measure is not None:
             self.input_dimension = measure.ndim()
+        elif values is not None:
+            self.input_dimension = values.shape[1]
         else:
             self.input_dimension = 1
 
-- 
2.43.0


From 2afcad0abb41b4a9ea8522ae87ed3b78b5e519b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 081/146] fix: conditional expectation given all variables
 raised

---
 .../bases/sparse_tensor_product_functional_basis.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..7ca0dfe 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -205,7 +205,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         else:
             h = tensap.FunctionalBasisArray(
-                np.eye(self.cardinal()), self, [self.cardinal(), 1]
+                np.eye(self.cardinal()), self, self.cardinal()
             )
         return h
 
-- 
2.43.0


From 0259c727eb8c027d1af458359fe1f1c2500d2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 082/146] fix: conditional expectation of functions with
 several outputs raised

---
 tensap/approximation/bases/functional_basis_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 020a930..cd2ec74 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -364,7 +364,9 @@ class FunctionalBasisArray(tensap.Function):
                 self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
             ),
         )
-        f.data = np.reshape(f.data, (f.data.shape[0], f.shape), order="F")
+        f.data = np.reshape(
+            f.data, np.concatenate(([f.data.shape[0]], f.shape)), order="F"
+        )
         f.basis = h.basis
         return f
 
-- 
2.43.0


From 29e0a86821a19620c86f18e3097437e9618d424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 083/146] fix: measure of kept, remaining or permuted bases was
 that of the original variables

---
 tensap/approximation/bases/functional_bases.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 53f6a3a..d549998 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -194,6 +194,7 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = np.delete(self.bases, ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def keep_bases(self, ind):
@@ -212,7 +213,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = out.bases[ind]
+        out.bases = np.atleast_1d(out.bases[ind])
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def transpose(self, perm):
@@ -232,6 +234,7 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = out.bases[perm]
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def __eq__(self, bases_2):
-- 
2.43.0


From c1f862910c0cac8708dc85c347f3a518597d59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 084/146] fix: measure of product bases with kept, remaining or
 permuted bases

---
 .../bases/full_tensor_product_functional_basis.py              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index c70e618..9c445fe 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -116,6 +116,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def keep_bases(self, ind):
@@ -135,6 +136,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def remove_mapping(self, ind):
@@ -162,6 +164,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
         return out
 
     def mean(self, *args):
-- 
2.43.0


From 4055f029abfea1760849a9fa46191d3c4b2dfef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 085/146] fix: multi-indices and measure of sparse bases with
 kept, remaining or permuted bases

---
 .../bases/sparse_tensor_product_functional_basis.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 7ca0dfe..e22a195 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -117,6 +117,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
+        out.indices = out.indices.remove_dims(ind)
         return out
 
     def keep_bases(self, ind):
@@ -136,6 +138,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
+        out.indices = out.indices.keep_dims(ind)
         return out
 
     def remove_mapping(self, ind):
@@ -163,6 +167,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
+        out.indices.array = out.indices.array[:, perm]
         return out
 
     def mean(self, *args):
-- 
2.43.0


From f3e99ed27729af4ad1cf7cb31c6b5afb9f89ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 086/146] fix: products of polynomial bases were projected on
 the wrong basis

---
 tensap/approximation/bases/polynomial_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 310201b..9d9312e 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -137,7 +137,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
         measure = b.measure
         int_rule = measure.gauss_integration_rule(2 * m + 1)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
-- 
2.43.0


From c19bd15db542a8514f899b9104465df784b7d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 087/146] fix: derivatives of polynomial bases of order above
 the degrees raised

---
 tensap/approximation/bases/polynomial_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 9d9312e..3ae1f21 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -168,7 +168,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(np.ceil(np.max(self.indices) - (k - 1) / 2))
+        nb_pts = max(int(np.ceil(np.max(self.indices) - (k - 1) / 2)), 1)
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
-- 
2.43.0


From 42da842e64492d5f5b0ab0931684fbb8f0748523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 088/146] fix: random evaluations of families of bases for
 their own measure raised

---
 tensap/approximation/bases/functional_bases.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index d549998..e10cadd 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -413,7 +413,9 @@ class FunctionalBases:
             if nargout == 1:
                 return bases_eval
             return bases_eval, x
-        return self.random_dims(dims, n, self.measure, nargout)
+        measure = self.get_random_vector()
+        assert measure is not None, "Must provide a ProbabilityMeasure."
+        return self.random_dims(dims, n, measure, nargout)
 
     def get_random_vector(self):
         """
@@ -427,7 +429,9 @@ class FunctionalBases:
         """
         if isinstance(self.measure, tensap.RandomVector):
             measure = self.measure
-        elif isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif isinstance(self.measure, tensap.ProductMeasure) and np.all(
+            [isinstance(x, tensap.ProbabilityMeasure) for x in self.measure.measures]
+        ):
             measure = self.measure.random_vector()
         else:
             measure = None
-- 
2.43.0


From bbd8dd5b398dad82a9a29e951c5b155eefd92a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 089/146] fix: random evaluations of product bases for their
 own measure raised

---
 tensap/approximation/bases/functional_basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index cf1bd81..037f9a5 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -81,6 +81,8 @@ class FunctionalBasis:
         """
         if measure is None:
             measure = self.measure
+        if isinstance(measure, tensap.ProductMeasure):
+            measure = measure.random_vector()
         if not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
-- 
2.43.0


From b0bc0e180bc28daf9df83f85d0014e23e3771752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 090/146] fix: boolean dimensions of variances of conditional
 expectations were read as integers

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index cd2ec74..846c5d0 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -392,7 +392,7 @@ class FunctionalBasisArray(tensap.Function):
         v = np.zeros((np.shape(alpha)[0], np.prod(self.shape)))
         for i in range(np.shape(alpha)[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
 
             if np.size(u) == 0:
-- 
2.43.0


From 7483c786383d7e8717af578ed72b1660e3fe3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 091/146] fix: boolean dimensions of conditional expectations
 were read as integers

---
 .../bases/sparse_tensor_product_functional_basis.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index e22a195..63c9979 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -180,7 +180,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def conditional_expectation(self, dims, *args):
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         dims_C = np.setdiff1d(range(self.ndim()), dims)
-- 
2.43.0


From 3003714cee651f85739604e09a67014466fddffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 092/146] fix: boolean dimensions of conditional expectations
 of functional tensors were read as integers

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..f02f19c 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -306,7 +306,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         d = self.tensor.order
@@ -358,7 +358,7 @@ class FunctionalTensor(tensap.Function):
         v = np.zeros(alpha.shape[0])
         for i in range(alpha.shape[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
             if u.size == 0:
                 v[i] = 0
-- 
2.43.0


From 0ff828b5bb165599b0f3c0990ec880ec8f08bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 093/146] fix: tensor product interpolation from a tensor of
 values raised

---
 .../bases/full_tensor_product_functional_basis.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 9c445fe..0556a02 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -306,8 +306,12 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
             y = fun
         else:
-- 
2.43.0


From 0f2768aef36ef3a93c57c332f85d84b6afb75a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 094/146] fix: projection of tensor-valued functions on a
 larger basis raised

---
 tensap/approximation/bases/functional_basis_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 846c5d0..10bd585 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -619,9 +619,10 @@ class FunctionalBasisArray(tensap.Function):
         ):
             d = np.zeros((basis.cardinal(), np.prod(self.shape)))
             _, ia, ib = self.basis.indices.intersect_indices(indices)
-            d[ib, :] = self.data[ia, :]
-            if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+            data = np.reshape(
+                self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
+            )
+            d[ib, :] = data[ia, :]
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
                 H = tensap.FullTensorProductIntegrationRule(basis.bases)
-- 
2.43.0


From 03cc9158ba532d9b3dcf7cac5a5564f3b97f9ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 095/146] fix: projection on a full tensor product basis raised

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 10bd585..70fab07 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -625,7 +625,7 @@ class FunctionalBasisArray(tensap.Function):
             d[ib, :] = data[ia, :]
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
             g = FunctionalBasisArray(d, H, self.shape)
-- 
2.43.0


From dbe5754bd9ab343422fc121201a7690af508ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 096/146] fix: tensor product projection with different numbers
 of points per dimension raised

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 0556a02..d5b6888 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -238,7 +238,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         u = fun.eval_on_tensor_grid(I0.points)
         output = {"number_of_evaluations": u.storage()}
-        Hx = self.bases.eval(np.hstack(I0.points.grids))
+        Hx = self.bases.eval(I0.points.grids)
 
         Mx = [
             np.matmul(np.transpose(x), np.matmul(np.diag(y), x))
-- 
2.43.0


From 6732a12d7dbe794fb570e99d1408630c99f36c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 097/146] fix: variances of conditional expectations of
 tensor-valued functions were transposed

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 70fab07..391fe69 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -400,7 +400,7 @@ class FunctionalBasisArray(tensap.Function):
             else:
                 mi = self.conditional_expectation(u)
                 vi = mi.dot_product_expectation(mi) - m**2
-                v[i, :] = np.ravel(vi)
+                v[i, :] = np.ravel(vi, order="F")
 
         return np.reshape(
             v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
-- 
2.43.0


From c5e1c6b62ee650d4822d5590c32f21399b1319a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 098/146] fix: Gram matrices of families of bases for a given
 measure

---
 tensap/approximation/bases/functional_bases.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index e10cadd..306d994 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -458,7 +458,7 @@ class FunctionalBases:
             dims = range(len(self))
         return [x.one() for x in self.bases[dims]]
 
-    def gram_matrices(self, dims=None):
+    def gram_matrices(self, dims=None, measure=None):
         """
         Return the gram matrices of each basis of self, or of a selection of
         them if dims is provided.
@@ -477,6 +477,13 @@ class FunctionalBases:
         """
         if dims is None:
             dims = range(len(self))
+        if isinstance(measure, tensap.RandomVector):
+            return [
+                x.gram_matrix(y)
+                for x, y in zip(self.bases[dims], measure.random_variables)
+            ]
+        if isinstance(measure, tensap.RandomVariable):
+            return [x.gram_matrix(measure) for x in self.bases[dims]]
         return [x.gram_matrix() for x in self.bases[dims]]
 
     def storage(self):
-- 
2.43.0


From 2dabc210d57d13fba0ea1b4aa78a169b1bf3b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 099/146] fix: norm, inner product and variance of functional
 tensors raised

---
 tensap/functions/functional_tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index f02f19c..d42a2c9 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -242,7 +242,7 @@ class FunctionalTensor(tensap.Function):
                     + "order, must specify fdims."
                 )
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            gram_matrix = self.bases.gram_matrices(fdims, *measure)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -269,7 +269,9 @@ class FunctionalTensor(tensap.Function):
 
         """
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices(
+                range(self.tensor.order), *measure
+            )
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
         tensor = self.tensor.tensor_matrix_product(
-- 
2.43.0


From 1b43e1d4d360d910367a550a65489dfc6dab05a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 100/146] fix: gradient of functional tensors raised

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index d42a2c9..867bfbe 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -752,12 +752,12 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
             g.append(y)
-        out = np.concatenate(g, axis=1)
+        out = np.stack(g, axis=1)
         return out
 
     def derivative(self, n):
-- 
2.43.0


From 8a4a975fa529d52afbf05ecce38a9935ca597a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 101/146] fix: sum of functional tensors raised

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 867bfbe..9939111 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -97,7 +97,7 @@ class FunctionalTensor(tensap.Function):
             self.measure = self.bases.measure
             self.dim = np.sum(self.bases.ndim())
 
-    def __plus__(self, y):
+    def __add__(self, y):
         if isinstance(y, FunctionalTensor) and self.bases == y.bases:
             tensor = self.tensor + y.tensor
         else:
-- 
2.43.0


From 6ed6e4c77e724fb23c66908ede9a4ef7f95ea733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 102/146] fix: partial evaluation of functional tensors on a
 grid raised

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 9939111..722b134 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -808,7 +808,7 @@ class FunctionalTensor(tensap.Function):
             out = deepcopy(self)
             out.tensor = self.tensor.tensor_matrix_product(H, dims)
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
+            out.fdims = out.fdims[np.setdiff1d(np.arange(np.size(out.fdims)), dims)]
             if np.size(out.fdims) == 0:
                 out = out.tensor
         return out
-- 
2.43.0


From b3e3967a1e9d8b747deae3913786df954e247c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 103/146] fix: product of functional tensors used the Kronecker
 products of the bases in another order than those of the tensors

---
 tensap/approximation/bases/polynomial_functional_basis.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 3ae1f21..c782753 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -132,7 +132,6 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
                     (1, self.cardinal(), 1),
                 ),
                 (np.shape(x)[0], self.cardinal() * q.cardinal()),
-                order="F",
             )
 
         measure = b.measure
-- 
2.43.0


From 20d3e447564f2f49040737b7b4393e308f67282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 104/146] fix: inner product of tree-based tensors of order one
 raised

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 82da852..9d488d7 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1877,6 +1877,8 @@ class TreeBasedTensor:
         tree = self.tree
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
+        if tree.nb_nodes == 1:
+            return tensors1[0].dot_with_rank_one_metric(tensors2[0], matrices)
         out = np.empty(tree.nb_nodes, dtype=object)
         out[tree.dim2ind - 1] = matrices
 
-- 
2.43.0


From 018b7a31232b1c69e262d683782b36b927e56485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 105/146] fix: evaluation on a grid of a functional tensor
 ignored the modes of its bases

---
 tensap/functions/functional_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 722b134..0d6c891 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -802,11 +802,12 @@ class FunctionalTensor(tensap.Function):
             dims = np.arange(self.bases.length())
         H = self.bases.eval(x, dims)
 
+        fdims_eval = self.fdims[dims]
         if np.size(dims) == self.tensor.order:
-            out = self.tensor.tensor_matrix_product(H, dims)
+            out = self.tensor.tensor_matrix_product(H, fdims_eval)
         else:
             out = deepcopy(self)
-            out.tensor = self.tensor.tensor_matrix_product(H, dims)
+            out.tensor = self.tensor.tensor_matrix_product(H, fdims_eval)
             out.bases = out.bases.remove_bases(dims)
             out.fdims = out.fdims[np.setdiff1d(np.arange(np.size(out.fdims)), dims)]
             if np.size(out.fdims) == 0:
-- 
2.43.0


From dbd30d1a67fb6f3322e3ea0256f874106f787ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 106/146] fix: partial evaluation of a functional tensor lost
 track of the modes of its bases

---
 tensap/functions/functional_tensor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 0d6c891..bd7ecd9 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -890,10 +890,13 @@ class FunctionalTensor(tensap.Function):
                 bases_eval, fdims_eval
             )
             fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[2:])
-            if out.tensor.shape[fdims_eval[0]] == 1:
-                out.tensor = out.tensor.squeeze(fdims_eval[0])
-                old_dims = np.delete(old_dims, fdims_eval[0])
+            # Mode of out.tensor associated with the samples
+            sample = 0 if isinstance(self.tensor, tensap.FullTensor) else fdims_eval[0]
+            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval)
+            old_dims = np.insert(old_dims, sample, fdims_eval[0])
+            if out.tensor.shape[sample] == 1:
+                out.tensor = out.tensor.squeeze(sample)
+                old_dims = np.delete(old_dims, sample)
             out.bases = out.bases.remove_bases(dims)
             out.fdims = np.delete(out.fdims, dims)
             out.fdims = np.nonzero(np.isin(old_dims, out.fdims))[0]
-- 
2.43.0


From 1fe88a92763aa3fa425f466e6479044f4187eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 107/146] fix: product of vector-valued functional tensors
 multiplied different components

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index bd7ecd9..528e5f4 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -417,7 +417,7 @@ class FunctionalTensor(tensap.Function):
                     c = out.tensor.tensors[root - 1]
                     n = self.tensor.ranks[root - 1]
                     s = [":"] * c.order
-                    s[-1] = np.arange(n**2, step=n)
+                    s[-1] = np.arange(n**2, step=n + 1)
                     c = c.sub_tensor(*s)
                     out.tensor.tensors[root - 1] = c
                     out.tensor.ranks[root - 1] = n
-- 
2.43.0


From 400340997500ad49c1e1e01db0499a097ce9a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 108/146] fix: partial evaluation of tree-based tensors at one
 point raised

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 9d488d7..7910c24 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1536,9 +1536,9 @@ class TreeBasedTensor:
         else:
             data = self.tensor_matrix_product(matrices, dims)
             dims = np.atleast_1d(dims)
-            if np.all([self.shape[d] == 1 for d in dims]):
+            if np.all([data.shape[d] == 1 for d in dims]):
                 if dims.size > 1:
-                    data = data.squeeze(dims[1:]).full()
+                    data = data.squeeze(np.sort(dims)[1:]).full()
             else:
                 raise NotImplementedError("Method not implemented.")
         return data
-- 
2.43.0


From 90b2caa449d42de640a9406a1326e9388992fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 109/146] fix: gradient with respect to the root of a
 functional tensor with inactive leaves raised

---
 .../tensors/tree_based_tensor.py              | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7910c24..7d69c89 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2259,8 +2259,11 @@ class TreeBasedTensor:
         tree = self.tree
         tensors = np.array(self.tensors)
 
-        diag_below = self.eval_diag_below(alpha)
-        diag_above = self.eval_diag_above(diag_below, alpha)
+        if alpha != tree.root:
+            diag_below = self.eval_diag_below(alpha)
+            diag_above = self.eval_diag_above(diag_below, alpha)
+        else:
+            diag_below = self.eval_diag_below(except_nodes=[alpha])
 
         children = tree.children(alpha)
         active_ch = children[self.is_active_node[children - 1]]
@@ -2291,7 +2294,17 @@ class TreeBasedTensor:
                         diag_below[active_ch[child] - 1], 0, 0
                     )
             if inactive_ch.size != 0:
-                tmp = tensap.FullTensor.ones(diag_above.shape[0])
+                if alpha != tree.root:
+                    nb_samples = diag_above.shape[0]
+                elif active_ch.size != 0:
+                    nb_samples = out.shape[0]
+                elif matrices is not None:
+                    ind = np.nonzero(tree.dim2ind == inactive_ch[0])[0][0]
+                    nb_samples = matrices[ind].shape[0]
+                else:
+                    ind = tree.child_number(inactive_ch[0]) - 1
+                    nb_samples = tensors[alpha - 1].shape[ind]
+                tmp = tensap.FullTensor.ones(nb_samples)
                 for child in inactive_ch:
                     if matrices is not None:
                         ind = np.nonzero(tree.dim2ind == child)[0][0]
-- 
2.43.0


From 3239aaf202b91e38ac8961e84f412ef216051911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 110/146] fix: square loss summed or paired different samples

---
 tensap/approximation/learning/loss_functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..7dd4baa 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -163,8 +163,13 @@ class SquareLossFunction(LossFunction):
             except Exception:
                 y_pred = fun
 
-        y_pred = np.atleast_2d(y_pred)
-        y_true = np.atleast_2d(sample[1])
+        # One row per sample
+        y_pred = np.asarray(y_pred)
+        if y_pred.ndim < 2:
+            y_pred = np.reshape(y_pred, (-1, 1))
+        y_true = np.asarray(sample[1])
+        if y_true.ndim < 2:
+            y_true = np.reshape(y_true, (-1, 1))
         loss = np.sum((y_pred - y_true) ** 2, 1)
 
         if nargout == 1:
-- 
2.43.0


From 0c542794307479e7c26430b152640e8d52145c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 111/146] fix: test errors of least-squares approximations with
 several outputs raised

---
 .../learning/linear_model_learning_square_loss.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..9c95cb2 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -147,12 +147,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     f_eval, self.test_data
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
+                output["test_error"] = np.zeros(n)
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 for ind in range(n):
                     test_data = [self.test_data[0], self.test_data[1][:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
 
         if self.basis is not None:
-- 
2.43.0


From a4457af7395ccbc5b65c677ad2b95c69463b14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 112/146] fix: weighted least-squares raised

---
 .../learning/linear_model_learning_square_loss.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 9c95cb2..8729875 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -108,9 +108,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         output = {}
 
         if self.weights is not None:
-            weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+            weights = np.sqrt(np.reshape(self.weights, (-1, 1)))
+            # With shared coefficients, the samples are repeated for each output
+            weights = np.tile(weights, (A.shape[0] // weights.shape[0], 1))
+            A = weights * A
+            y = np.reshape(weights * np.reshape(y, (A.shape[0], -1)), np.shape(y))
+            self.basis_eval = A
+            self.training_data[1] = y
 
         if not self.basis_adaptation:
             if not self.regularization:
-- 
2.43.0


From d2be5904018726f2ad450a21701f3ed9c24666ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 113/146] fix: least-squares resolution modified the training
 data and options of the solver

---
 .../learning/linear_model_learning_square_loss.py          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 8729875..8fe334f 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -19,6 +19,7 @@ Module linear_model_learning_square_loss.
 
 """
 
+from copy import copy
 import numpy as np
 from scipy.sparse import diags
 import tensap
@@ -84,6 +85,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             Outputs of the algorithm.
 
         """
+        # The attributes modified below are restored after the resolution
+        self = copy(self)
+        self.error_estimation_options = dict(self.error_estimation_options)
+        if isinstance(self.training_data, list):
+            self.training_data = list(self.training_data)
+
         self.initialize()
 
         A = self.basis_eval
-- 
2.43.0


From da54b254eed287943f2e456b1385fd8b64c088a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 114/146] fix: cross-validation errors of approximations with
 several outputs

---
 .../learning/linear_model_learning_square_loss.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 8fe334f..efa24ca 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -581,7 +581,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 T = np.sum(q_A**2, 1)
 
             with np.errstate(divide="ignore", invalid="ignore"):
-                delta = (y - np.matmul(A, sol)) / (1 - np.reshape(T, y.shape))
+                T = np.reshape(T, (N,) + (1,) * (np.ndim(y) - 1))
+                delta = (y - np.matmul(A, sol)) / (1 - T)
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
@@ -622,14 +623,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 )
                 # Compute the absolute cross-validation error for the current
                 # fold
-                errors.append(np.mean(delta_loc**2))
+                errors.append(np.mean(delta_loc**2, 0))
                 if n == 1:
                     delta[test] = delta_loc
                 else:
                     delta[test, :] = delta_loc
 
             # Average over the folds
-            err = np.mean(errors)
+            err = np.mean(errors, 0)
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-- 
2.43.0


From b103166745131ac6b433fb7355ec0be29b5b8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 115/146] fix: basis adaptation with a given Gram matrix raised

---
 .../learning/linear_model_learning_square_loss.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index efa24ca..e21aa4d 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -419,7 +419,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[ind, ind]
+                self.error_estimation_options["gram_matrix"] = gram_matrix[
+                    np.ix_(ind, ind)
+                ]
 
             if A_red.shape[1] > A_red.shape[0]:
                 self.linear_solver = "solve"
-- 
2.43.0


From df757c96f6fe94528b73357aebdde8e34e144c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 116/146] fix: stopping basis adaptation when the error
 increases had no effect

---
 .../approximation/learning/linear_model_learning_density_l2.py | 3 ++-
 .../learning/linear_model_learning_square_loss.py              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..774a018 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -351,12 +351,13 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             sol[ind, i] = np.squeeze(sol_red)
 
             if (
-                i > 1
+                i > 0
                 and self.model_selection_options["stop_if_error_increase"]
                 and err[i] > 2 * err[i - 1]
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index e21aa4d..55e5fd5 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -454,13 +454,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             sol[ind, i] = np.squeeze(sol_red)
 
             if (
-                i > 1
+                i > 0
                 and self.model_selection_options["stop_if_error_increase"]
                 and err[i] > 2 * err[i - 1]
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
-- 
2.43.0


From 8ef4be78562917d11b956aa7ba6d7dfdda38e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 117/146] fix: l0 regularization raised

---
 .../learning/linear_model_learning_square_loss.py        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 55e5fd5..0e4a6d8 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -21,7 +21,6 @@ Module linear_model_learning_square_loss.
 
 from copy import copy
 import numpy as np
-from scipy.sparse import diags
 import tensap
 
 
@@ -249,9 +248,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -260,8 +259,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 return_path=True,
                 **options_loc
             )
-            solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            solpath = np.reshape(solpath, (P, -1)) / D[:, np.newaxis]
+            sol = solpath[:, -1]
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
-- 
2.43.0


From 79c8a249139fefe465fea2da4dfd189de46f4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 118/146] fix: model selection with non zero blocks raised

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 0e4a6d8..f78533d 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -276,7 +276,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         if (self.model_selection and np.linalg.norm(
                 solpath) != 0) and solpath.shape[1] > 1:
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
+                rep = np.full(solpath.shape[1], True)
                 rep = np.logical_and(rep, np.any(solpath, 0))
                 for block in self.options["non_zero_blocks"]:
                     rep = np.logical_and(rep, np.any(solpath[block, :], 0))
-- 
2.43.0


From 312b7cf32505870da0812f7ac9b3ec114ac10346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 119/146] fix: regularized least-squares with several outputs
 and without error estimation raised

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index f78533d..82cf665 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -135,7 +135,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     for ind in range(n):
                         self.training_data[1] = y[:, ind]
                         sol[:, ind], output_tmp = self._solve_regularized_ls()
-                        output["error"][ind] = output_tmp["error"]
+                        output["error"][ind] = output_tmp.get("error", np.nan)
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
-- 
2.43.0


From 87895927466333233ea8e31e54d3805f6600ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 120/146] fix: test error of linear density models used the
 square loss and raised

---
 .../learning/linear_model_learning_density_l2.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 774a018..16be1f8 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -45,7 +45,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         None.
 
         """
-        super().__init__(tensap.SquareLossFunction())
+        super().__init__(tensap.DensityL2LossFunction())
 
         self.is_basis_orthonormal = True
 
@@ -74,7 +74,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         if self.test_error:
             f_eval = np.matmul(self.basis_eval_test, sol)
             output["test_error"] = self.loss_function.test_error(
-                f_eval, self.test_data, sol.norm() ** 2
+                f_eval, self.test_data, np.linalg.norm(sol)
             )
 
         if self.basis is not None:
-- 
2.43.0


From 4c61071cba7177e8376f1ca506760d11acf3100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 121/146] fix: density regularization with included
 coefficients raised

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 16be1f8..5b0e10a 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -188,7 +188,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
                     / (N * (N - 1) ** 2)
                     * np.sum(np.ravel(A_square_sum)[incl_coef])
                     - 2 / (N - 1) * np.sum(np.matmul(A, sol_incl_coef))
-                    + 2 * np.sum(sol_incl_coef * b_incl_coef)
+                    + 2 * np.sum(sol_incl_coef[incl_coef] * b_incl_coef)
                 )
 
         if list_sort.size == 0:
-- 
2.43.0


From 565a96308a8d9bc2e8f1d4a27b916d814c7a27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 122/146] fix: linear density learning kept evaluations of the
 basis of previous training data

---
 .../approximation/learning/linear_model_learning_density_l2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 5b0e10a..df62759 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -19,6 +19,7 @@ Module linear_model_learning_density_l2.
 
 """
 
+from copy import copy
 import numpy as np
 import tensap
 
@@ -62,6 +63,8 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             Outputs of the algorithm.
 
         """
+        # The evaluations of the basis set by initialize are not kept
+        self = copy(self)
         self.initialize()
 
         if self.basis_adaptation:
-- 
2.43.0


From c83c461e9089a4dc84c340a3dd3ef11dcedefa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 123/146] fix: basis adaptation with several outputs used the
 Gram matrix reduced for the previous output

---
 .../learning/linear_model_learning_square_loss.py             | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 82cf665..1802b2b 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -462,6 +462,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 delta[:, i + 1:] = np.inf
                 break
 
+        self.linear_solver = linear_solver
+        if "gram_matrix" in self.error_estimation_options:
+            self.error_estimation_options["gram_matrix"] = gram_matrix
+
         ind = np.argmin(err)
 
         output["error"] = err[ind]
-- 
2.43.0


From d70d316317430acd2f57016670d17ab6deff6176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 124/146] fix: path of selected models lost the models tied at
 a breakpoint

---
 tensap/approximation/tools/model_selection.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 9c05a7b..6afe28c 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -93,27 +93,29 @@ class ModelSelection:
         """
         comp = np.array(self.data["complexity"])
         risk = np.array(self.data["empirical_risk"])
+        pen = self.pen_shape(comp)
 
         path = []
         m_path = []
         lambda_0 = 0
         lambda_current = 0
-        ind = np.argmin(risk)
+        # Among models with equal penalized risks, the one with the lowest penalty
+        ind = np.lexsort((pen, risk))[0]
+        ind_min = ind
         ok = True
 
         while ok:
             with np.errstate(all="ignore"):
-                lambda_current = (risk - risk[ind]) / (
-                    self.pen_shape(comp[ind]) - self.pen_shape(comp)
-                )
-                lambda_current[lambda_current <= lambda_0] = np.nan
+                lambda_current = (risk - risk[ind]) / (pen[ind] - pen)
+                lambda_current[pen >= pen[ind]] = np.nan
                 lambda_current[lambda_current == np.inf] = np.nan
 
             ok = not np.all(np.isnan(lambda_current))
             if ok:
                 lambda_0 = np.nanmin(lambda_current)
                 if not np.isnan(lambda_0):
-                    ind = np.nanargmin(lambda_current)
+                    ties = np.nonzero(lambda_current == lambda_0)[0]
+                    ind = ties[np.argmin(pen[ties])]
                     path.append(lambda_0)
                     m_path.append(ind)
 
@@ -123,7 +125,6 @@ class ModelSelection:
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
-            ind_min = np.argmin(risk)
             path = np.concatenate(([path[0] / 2], path, [path[-1] * 2]))
             m_path = np.concatenate(([ind_min], m_path, [m_path[-1]]))
         return np.array(path), np.array(m_path)
-- 
2.43.0


From d90bc14018a171d56d0e1cc8b9ec83d01f64346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 125/146] fix: path of selected models without breakpoint, and
 slope heuristic given a list or such a path

---
 tensap/approximation/tools/model_selection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 6afe28c..e59867c 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -120,8 +120,8 @@ class ModelSelection:
                     m_path.append(ind)
 
         if path == []:
-            path = 0
-            m_path = 0
+            path = [0]
+            m_path = [ind_min]
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
@@ -171,6 +171,9 @@ class ModelSelection:
 
         if lambda_path is None and m_path is None:
             lambda_path, m_path = self.lambda_path()
+        lambda_path, m_path = np.array(lambda_path), np.array(m_path)
+        if lambda_path.size == 1:
+            return 0, m_path[0], lambda_path, m_path
         l_mid = (lambda_path[:-1] + lambda_path[1:]) / 2
         gaps = comp[self.m_lambda(l_mid[:-1])] - comp[self.m_lambda(l_mid[1:])]
         ind = np.argmax(gaps)
-- 
2.43.0


From 598a2f0db67bc18b83fc204dfc43698af33c0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 126/146] fix: principal component analysis given a list of one
 tolerance

---
 .../tensor_principal_component_analysis.py                | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8393e4f..0cb0338 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -401,8 +401,12 @@ class TensorPrincipalComponentAnalysis:
         if is_active_node is None:
             is_active_node = np.full(tree.nb_nodes, True)
 
-        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and self.tol < 1:
-            solver.tol /= np.sqrt(np.count_nonzero(is_active_node) - 1)
+        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and np.all(
+            np.array(self.tol) < 1
+        ):
+            solver.tol = np.array(self.tol) / np.sqrt(
+                np.count_nonzero(is_active_node) - 1
+            )
 
         if np.ndim(self.tol) == 0 or len(self.tol) == 1:
             solver.tol = np.full(tree.nb_nodes, solver.tol)
-- 
2.43.0


From 11cfd9cbb9d1196b101f28c3e8adaec88282e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 127/146] fix: stored iterates of the alternating minimization
 were overwritten by the next ones

---
 .../tensor_approximation/tensor_learning/tensor_learning.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..0552c6c 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -470,10 +470,10 @@ class TensorLearning(tensap.Learning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
-- 
2.43.0


From ed273b9c25ccdcad253ccaffe49147c0e7239104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 128/146] fix: stored iterate was not the one whose test error
 was reported after a tree adaptation

---
 .../tensor_learning/tensor_learning.py                    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 0552c6c..8d4fc2b 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -695,6 +695,14 @@ class TensorLearning(tensap.Learning):
                                 + "= %2.5e" % test_errors[iteration]
                             )
 
+                    if self.store_iterates:
+                        if isinstance(self.bases, tensap.FunctionalBases):
+                            iterates[iteration] = tensap.FunctionalTensor(
+                                f.tensor, self.bases
+                            )
+                        else:
+                            iterates[iteration] = deepcopy(f)
+
                     if self.alternating_minimization_parameters["display"]:
                         print("")
 
-- 
2.43.0


From 9a991fd1dbc392097849e71ffd25e0cc85e48a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 129/146] fix: canonical learning overwrote the initial guess

---
 .../tensor_learning/canonical_tensor_learning.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..a347466 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -88,7 +88,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         elif self.initialization_type == "ones":
             f = tensap.CanonicalTensor.ones(self.rank, shape)
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
         elif (
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
-- 
2.43.0


From 49fd040630d58c8e27341ec8cc90abb31bccfbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 130/146] fix: tree-based learning overwrote the initial guess
 when enriching its ranks

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..ddd3466 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -95,7 +95,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 self.tree, self.rank, shape, self.is_active_node
             )
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
             if not np.all(f.ranks == self.rank):
                 tr = tensap.Truncator(tolerance=np.finfo(float).eps, max_rank=self.rank)
                 f = tr.truncate(f)
-- 
2.43.0


From bd03255c2bef0bd23f0feec42ff8d387af836289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 131/146] fix: greedy initialization given a list of linear
 solvers

---
 .../tensor_learning/canonical_tensor_learning.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index a347466..c4d8cbe 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -118,7 +118,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.algorithm = "greedy"
             s_ini.initialization_type = "mean"
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.atleast_1d(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
@@ -143,7 +144,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.initialization_type = "greedy"
             s_ini.rank = self.rank - len(f.core.data)
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.atleast_1d(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-- 
2.43.0


From 90da07fac7aeadcb52688f6a3330f31a2fcc103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 132/146] fix: greedy algorithm in canonical format raised

---
 .../tensor_learning/canonical_tensor_learning.py          | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index c4d8cbe..23c6670 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -356,6 +356,10 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         bases_eval = self.bases_eval
         output = {}
         output["sequence"] = np.empty(self.rank, dtype=object)
+        output["test_error_iterations"] = []
+
+        # Rank-one corrections are computed factor by factor, followed by the core
+        self._number_of_parameters = self.order + 1
 
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
@@ -392,14 +396,14 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         f = tensap.CanonicalTensor.zeros(0, [x.shape[1] for x in bases_eval])
         f_0 = deepcopy(f)
-        stagnation = np.zeros((1, self.rank))
+        stagnation = np.zeros(self.rank)
 
         ls_local = deepcopy(
             s_local.linear_model_learning[self._number_of_parameters - 1]
         )
 
         is_error = False
-        error = np.ones((1, self.rank))
+        error = np.ones(self.rank)
         pure_greedy = False
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
-- 
2.43.0


From b3a98f7dd5e44c677a0aa34b6aaa03e3e26df096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 133/146] fix: greedy algorithm dropped its last iterate from
 the selection and reported the test error of another one

---
 .../canonical_tensor_learning.py              | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 23c6670..4106043 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -455,18 +455,6 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                         stagnation[k - 1],
                     )
 
-            if (
-                error[k - 1] < self.tolerance["on_error"]
-                or stagnation[k - 1] < self.tolerance["on_stagnation"]
-                or (
-                    k > 2
-                    and error[k - 1] > error[k - 2]
-                    and error[k - 2] > error[k - 3]
-                )
-            ):
-                break
-
-            f_0 = deepcopy(f)
             if self.test_error:
                 f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
                 output["test_error"] = self.loss_function.test_error(
@@ -480,13 +468,28 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                         output["test_error"],
                     )
 
-        output["stagnation"] = stagnation[: k - 1]
+            if (
+                error[k - 1] < self.tolerance["on_error"]
+                or stagnation[k - 1] < self.tolerance["on_stagnation"]
+                or (
+                    k > 2
+                    and error[k - 1] > error[k - 2]
+                    and error[k - 2] > error[k - 3]
+                )
+            ):
+                break
+
+            f_0 = deepcopy(f)
+
+        output["stagnation"] = stagnation[:k]
         if is_error:
-            output["errors"] = error[: k - 1]
+            output["errors"] = error[:k]
             K = np.argmin(output["errors"])
             f = output["sequence"][K]
             output["selected_iterate"] = K
             output["error"] = output["errors"][K]
+            if self.test_error:
+                output["test_error"] = output["test_error_iterations"][K]
 
         if isinstance(self.bases, tensap.FunctionalBases):
             f = tensap.FunctionalTensor(f, self.bases)
-- 
2.43.0


From 252e738712c2480d88aa0e3c641e4e92db5a540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 134/146] fix: model selection with the greedy algorithm
 raised, and it returned a tensor without bases

---
 .../tensor_learning/canonical_tensor_learning.py   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 4106043..b289cbb 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -405,6 +405,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         is_error = False
         error = np.ones(self.rank)
         pure_greedy = False
+        ls_local.error_estimation |= self.error_estimation
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
                 setattr(linear_solver, "error_estimation", False)
@@ -488,10 +489,19 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             f = output["sequence"][K]
             output["selected_iterate"] = K
             output["error"] = output["errors"][K]
+            output["error_iterations"] = output["errors"]
             if self.test_error:
                 output["test_error"] = output["test_error_iterations"][K]
 
-        if isinstance(self.bases, tensap.FunctionalBases):
-            f = tensap.FunctionalTensor(f, self.bases)
+        bases = (
+            self.bases
+            if isinstance(self.bases, tensap.FunctionalBases)
+            else self.bases_eval
+        )
+        if self.store_iterates:
+            output["iterates"] = [
+                tensap.FunctionalTensor(x, bases) for x in output["sequence"][:k]
+            ]
+        f = tensap.FunctionalTensor(f, bases)
 
         return f, output
-- 
2.43.0


From e6ed67de8f5d36261f018ffa10f39e54ac2901c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 135/146] fix: basis adaptation factor by factor in canonical
 learning used other linear solvers

---
 .../tensor_learning/canonical_tensor_learning.py         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index b289cbb..7b5dd57 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -203,6 +203,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         ), "Method not implemented for this loss function."
         y = self.training_data[1]
         N = self.bases_eval[0].shape[0]
+        linear_solver = self.linear_model_learning[mu - 1]
 
         if mu != self._number_of_parameters:
             if self.alternating_minimization_parameters["one_by_one_factor"]:
@@ -232,8 +233,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 A = self.bases_eval[mu - 1] * np.transpose(
                     np.tile(fH_mu[:, ind - 1], (f.tensor.shape[mu - 1], 1))
                 )
-                if self.linear_model_learning[mu - 1].basis_adaptation:
-                    self.linear_model_learning[mu - 1].basis_adaptation_path = (
+                if linear_solver.basis_adaptation:
+                    linear_solver.basis_adaptation_path = (
                         self.bases_adaptation_path[mu - 1]
                     )
             else:
@@ -262,9 +263,9 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             grad = f.parameter_gradient_eval(mu)
             A = np.reshape(grad.data, [grad.shape[0], -1], order="F")
             b = y
-            self.linear_model_learning[mu - 1].basis_adaptation = False
+            linear_solver.basis_adaptation = False
 
-        self.linear_model_learning[mu - 1].initial_guess = np.reshape(coef, -1)
+        linear_solver.initial_guess = np.reshape(coef, -1)
 
         return self, A, b, f
 
-- 
2.43.0


From d7c3c0c257b333237438ff5adb73662c03efae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 136/146] fix: random exploration in tree-based learning raised

---
 .../tensor_learning/tree_based_tensor_learning.py        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index ddd3466..90eb330 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -186,14 +186,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.array(self._exploration_strategy)
         for level in np.arange(np.max(self.tree.level), -1, -1):
             active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
-            )
-            _, ind = np.intersect1d(
-                self._exploration_strategy, active_nodes, return_indices=True
+                self.tree.nodes_with_level(level),
+                np.nonzero(self.is_active_node)[0] + 1,
             )
+            ind = np.nonzero(np.isin(self._exploration_strategy, active_nodes))[0]
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
         return strategy
 
-- 
2.43.0


From 191fb91f9eefa129f5dc583bb964ff951de4cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 137/146] fix: random enrichment of the ranks changed other
 edges and rescaled the existing columns

---
 .../tensor_learning/tree_based_tensor_learning.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 90eb330..c503880 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1239,7 +1239,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         """
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
@@ -1257,7 +1257,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         * (1 + np.random.randn(A.shape[0], rank)),
                     )
                 )
-                A[:, -1 - rank - 1:] /= np.sqrt(np.sum(A[:, -1 - rank - 1:] ** 2, 0))
+                A[:, -rank:] /= np.sqrt(np.sum(A[:, -rank:] ** 2, 0))
                 shape = np.array(f.tensors[alpha - 1].shape)
                 shape[-1] += rank
                 f.tensors[alpha - 1].data = np.reshape(A, shape, order="F")
@@ -1273,7 +1273,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         * (1 + np.random.randn(A.shape[0], rank)),
                     )
                 )
-                A[:, -1 - rank - 1:] /= np.sqrt(np.sum(A[:, -1 - rank - 1:] ** 2, 0))
+                A[:, -rank:] /= np.sqrt(np.sum(A[:, -rank:] ** 2, 0))
                 shape = np.array(f.tensors[gamma - 1].shape)
                 shape[ch] += rank
                 A = np.reshape(A, shape[ind], order="F")
-- 
2.43.0


From ef18b901d76f560da109f28f5865aa54e6bec1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 138/146] fix: mean initialization of tree-based learning
 without bases raised

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index c503880..e184220 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -118,7 +118,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if isinstance(self.bases, tensap.FunctionalBases):
                 means = self.bases.mean()
             else:
-                means = [np.mean(x) for x in self.bases_eval]
+                means = [np.mean(x, 0) for x in self.bases_eval]
             if self.initialization_type == "mean_randomized":
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
-- 
2.43.0


From f675d9c62ca35616b014a9d304e61156fe9bbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 139/146] fix: rank adaptation without rank-one correction
 raised

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index e184220..e27c005 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -490,8 +490,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             s_local.display = False
             s_local.alternating_minimization_parameters["display"] = False
             tensor_for_selection = s_local.solve()[0].tensor
+            expected_rank = s_local.rank
         else:
             tensor_for_selection = f.tensor
+            expected_rank = f.tensor.ranks
 
         sin_val = tensor_for_selection.singular_values()
 
@@ -504,7 +506,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        sin_val[expected_rank != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
-- 
2.43.0


From a3d3f6e421c1a1a6afd903832cea7037e8736af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 140/146] fix: rank adaptation by DMRG of vector-valued
 functions raised instead of being disabled

---
 .../tensor_approximation/tensor_learning/tensor_learning.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 8d4fc2b..ba72d1f 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -190,7 +190,7 @@ class TensorLearning(tensap.Learning):
         if (
             self.output_dimension > 1
             and "type" in self.rank_adaptation_options
-            and self.rank_adaptation_options["type"] == "inner"
+            and self.rank_adaptation_options["type"] in ("inner", "dmrg", "dmrg_low_rank")
         ):
             print(
                 "Inner rank adaptation not implemented for "
-- 
2.43.0


From 7cb67b20d8f2e1394f9db96f53bde86b019ff829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 141/146] fix: stored iterates of the DMRG algorithm were
 overwritten by the next ones

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index e27c005..2d635ce 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -994,10 +994,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
-- 
2.43.0


From 07ba6a65a17930069e7b63dd7047e44e8c071be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 142/146] fix: rank adaptation of density estimation with
 inactive nodes raised

---
 .../tree_based_tensor_learning.py             | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 2d635ce..5296cbd 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -239,22 +239,17 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 y = self.training_data[1]
                 if isinstance(y, tensap.FunctionalTensor):
                     y = y.tensor
-                y = y.orth()
-                if tree.is_leaf[mu - 1]:
-                    a = deepcopy(y)
-                    for nod in tree.internal_nodes:
-                        a.tensors[nod - 1] = tensap.FullTensor(
-                            y.tensors[nod - 1].data * f.tensor.tensors[nod - 1].data,
-                            shape=y.tensors[nod - 1].shape,
-                        )
-                    ind = np.setdiff1d(
-                        range(self.order), np.nonzero(tree.dim2ind == mu)[0]
-                    )
-                    C = [x.data for x in f.tensor.tensors[tree.dim2ind - 1]]
-                    b = a.tensor_vector_product([C[x] for x in ind], ind)
-                    b = b.tensors[0].data
-                else:
-                    b = f.tensor.dot(y) / f.tensor.tensors[mu - 1].data
+                # Derivative of the inner product of f and y with respect to the
+                # tensor of node mu
+                g = deepcopy(f.tensor)
+                shape = g.tensors[mu - 1].shape
+                b = np.zeros(np.prod(shape))
+                for ind in range(b.size):
+                    unit = np.zeros(b.size)
+                    unit[ind] = 1
+                    g.tensors[mu - 1] = tensap.FullTensor(unit, shape=shape)
+                    g.is_orth = False
+                    b[ind] = g.dot(y)
             else:
                 b = []
         elif isinstance(self.training_data, list) and len(self.training_data) == 2:
-- 
2.43.0


From 4c518bac53951c4eff66c98e027d03b103014ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 143/146] fix: second call to solve with inactive nodes raised

---
 .../tensor_approximation/tensor_learning/tensor_learning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index ba72d1f..f885ed8 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -233,6 +233,12 @@ class TensorLearning(tensap.Learning):
             print("The test error cannot be computed.")
             self.test_error = False
 
+        # Solvers of a previous call: there is none for the inactive nodes
+        if isinstance(self.linear_model_learning, np.ndarray):
+            self.linear_model_learning = [
+                x for x in self.linear_model_learning if x is not None
+            ]
+
         # Assert if basis adaptation can be performed
         if self.bases_adaptation_path is None and not hasattr(
             self.bases, "adaptation_path"
-- 
2.43.0


From 15d9d300035d5072a8f01d8a67d58c26f25475ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 144/146] fix: optimization of a dimension tree without
 admissible permutation did not terminate

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7d69c89..ab4fb73 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -760,6 +760,10 @@ class TreeBasedTensor:
 
         nodes = tensap.fast_setdiff(np.arange(1, nb_nodes + 1), self.tree.root)
 
+        # Nothing to optimize if no permutation of two nodes changes the tree
+        if not np.any([self.nodes_permutation_cost(node) for node in nodes]):
+            return tensor_star
+
         proba_m = 1 / np.arange(1, self.order + 1) ** 2
 
         c_star = self.storage()
-- 
2.43.0


From 591eda91c4da63afb66dab42dd4d8d5550dd5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 145/146] fix: iso_probabilistic_grid of a random vector of
 size one accepts a scalar

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index a3f1509..d14a48b 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -167,7 +167,7 @@ class RandomVector(tensap.ProbabilityMeasure):
         if np.size(n) == 1 and n < 1:
             n = int(np.ceil(n ** (-1 / d)))
 
-        if np.size(n) != d:
+        if np.ndim(n) == 0 or np.size(n) != d:
             n = np.full(d, n)
 
         b = [x.iso_probabilistic_grid(y) for x, y in zip(self.random_variables, n)]
-- 
2.43.0


From ddb3a1a0f7f013b1a4626d0dc1eeedcd4b18f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 146/146] fix: change_root of a TreeBasedTensor with root rank
 above one failed

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index ab4fb73..84c3207 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -609,8 +609,12 @@ class TreeBasedTensor:
         assert x.is_active_node[nod - 1], "Can not make an inactive node the root node."
 
         if x.ranks[x.tree.root - 1] > 1:
-            x.tree = x.tree.addChild(x.tree.root)
-            x.tensors = np.concatenate((x.tensors, []))
+            x.tree = x.tree.add_child(x.tree.root)
+            tensors = np.empty(x.tree.nb_nodes, dtype=object)
+            tensors[:-1] = x.tensors
+            tensors[-1] = tensap.FullTensor([])
+            x.tensors = tensors
+            x.order = x.tree.dim2ind.size
             x = x.update_attributes()
             x = x.change_root(nod)
         else:
-- 
2.43.0

