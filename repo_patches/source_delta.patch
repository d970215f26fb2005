From 6b60b6e72d41fa54f0f1b44ae41dc7079477d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 01/32] fix: count every node of a short segment in
 ColFreqHandler.process_right_window

---
 nephosem/models/typetoken.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b16b9de..9f89413 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -433,10 +433,9 @@ class ColFreqHandler(BaseHandler):
             while win.node is None and i < win.right_span:
                 win.update(None)
                 i += 1
-            while win.node and i < win.right_span:
+            while win.node:
                 self.update_one_match(matrix, win)
                 win.update(None)
-                i += 1
             return
 
         # normal cases:
-- 
2.43.0


From 0f6e9e313a182c2ee4e36885d33f98841889c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 02/32] fix: TokenHandler.process_right_window with right-span
 0 and an empty segment

---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 9f89413..72fd26e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -623,7 +623,7 @@ class TokenHandler(BaseHandler):
         # handle special cases:
         # [None, ..., None] None [None, .., match, match, .., match]
         # TODO: check                                           ^ must be not None???
-        if win.node is None and win.right[-1] is not None:
+        if win.node is None and win.right and win.right[-1] is not None:
             # update at most right_span times
             while win.node is None:
                 win.update(None)
-- 
2.43.0


From 6328809d0cb4762245cb0c4ee9da4a3409cfc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 03/32] fix: TokenHandler._process_results must drain the
 results of every worker

---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 72fd26e..ef78cce 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -643,7 +643,8 @@ class TokenHandler(BaseHandler):
         type2toks = defaultdict(list)
         logger.info("Merging results")
 
-        for _ in trange(n):
+        # idle workers also put a result, so there can be more results than files
+        for _ in trange(res_queue.qsize()):
             res = res_queue.get()
             # when data in res_queue is a `type2toks` dict
             if isinstance(res, dict):
-- 
2.43.0


From a6a29619dbcd7913ce90cb6a571ccf2562b23b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 04/32] fix: np.bool was removed from numpy

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f52e36..6cb912a 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -506,7 +506,7 @@ def compute_token_weights(tcPositionMTX, twMTX, booleanize = True, tokenFormat='
     missing_types = []
     tokens = tcPositionMTX.row_items
     types = set(twMTX.row_items)  # set of target types
-    tcmx_type = np.bool if booleanize else tcPositionMTX.matrix.dtype
+    tcmx_type = bool if booleanize else tcPositionMTX.matrix.dtype
     bool_tcmx = tcPositionMTX.matrix.astype(tcmx_type, copy=True).toarray()
     twmx = twMTX.matrix.toarray()  # transform to dense matrix (numpy.ndarray)
     resmx = np.zeros(bool_tcmx.shape)
-- 
2.43.0


From d12fc09ddde3a2201affc7cd86b1875e395a08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 05/32] fix: dot_multiplication skipped every nonzero second
 order value

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 6cb912a..37796e5 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -615,7 +615,7 @@ def dot_multiplication(mtx_l, mtx_r):
     for i in range(m):
         for k in range(n):
             for j in range(mtx_l.shape[1]):
-                if mtx_l[i, j] == 0.0 or mtx_r[j, k]:
+                if mtx_l[i, j] == 0.0 or mtx_r[j, k] == 0.0:
                     continue
                 product_mtx[i, k] *= mtx_l[i, j] * mtx_r[j, k]
     return product_mtx
-- 
2.43.0


From feba72c667ae03f13c7e4828f4c1922fadfea950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 06/32] fix: marginal sums and nonzero counts of matrices with
 one row or one column

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9ee1bf9..09988e1 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -865,7 +865,7 @@ class TypeTokenMatrix(BaseMatrix):
             return self.matrix.sum()
         items = self.row_items if axis == 1 else self.col_items
         # sum of each rows / columns of matrix (normally collocate frequency matrix)
-        sums = np.squeeze(np.asarray(self.matrix.sum(axis=axis))).tolist()
+        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
         freq_dict = {k: v for k, v in zip(items, sums)}
         return freq_dict
 
@@ -1126,7 +1126,7 @@ class TypeTokenMatrix(BaseMatrix):
     def count_nonzero(self, axis=0):
         """Count the number of nonzero values for each row or each column."""
         nonzeros = (self.matrix != 0).sum(axis=(1-axis))
-        nonzeros = np.squeeze(np.asarray(nonzeros))
+        nonzeros = np.asarray(nonzeros).ravel()
         return nonzeros
 
     def drop(self, axis=0, n_nonzero=0, **kwargs):
-- 
2.43.0


From 1cc0b6b2a5ed7b97340e474623564edb744c4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 07/32] fix: transform_dict_to_spmatrix forced the type of the
 first value on all values and indices

---
 nephosem/specutils/mxutils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 78a7240..c141352 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -71,7 +71,6 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
             data.append(value)
     if len(data) == 0:
         raise ValueError("Error: the input matrix is empty!!!")
-    dt = type(data[0])
     ''' TODO: check data types
     dtypes = {
         int: np.int32,
@@ -87,10 +86,9 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
     col = np.array(col, dtype=dtypes[dt])
     data = np.array(data, dtype=dtypes[dt])
     '''
-    row = np.array(row, dtype=dt)
-    col = np.array(col, dtype=dt)
-    data = np.array(data, dtype=dt)
-
+    row = np.array(row)
+    col = np.array(col)
+    data = np.array(data)
     nEles = len(data)
     if verbose:
         logger.info("  Done... Num of data: {}\n".format(nEles))
-- 
2.43.0


From 2a3fbb27d23b851abd73282ff6aa8e3305b3410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 08/32] fix: TypeTokenMatrix.save of sparse matrices not in csr
 format

---
 nephosem/core/matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 09988e1..0ef04e0 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1341,11 +1341,12 @@ class TypeTokenMatrix(BaseMatrix):
 
         if isinstance(self.matrix, sp.spmatrix):
             mx_fname = "{}.npz".format(basename)
+            spmx = self.matrix.tocsr()  # load() reads the arrays as those of a csr matrix
             np.savez(mx_fname,
-                     data=self.matrix.data,
-                     indices=self.matrix.indices,
-                     indptr=self.matrix.indptr,
-                     shape=self.matrix.shape)
+                     data=spmx.data,
+                     indices=spmx.indices,
+                     indptr=spmx.indptr,
+                     shape=spmx.shape)
         elif isinstance(self.matrix, np.ndarray):
             mx_fname = "{}.npy".format(basename)
             np.save(mx_fname, self.matrix)
-- 
2.43.0


From b30da953e677df11cce8e263ae2bb75ec8c9c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 09/32] fix: an empty target filter means no filtering of
 dependency matches

---
 nephosem/specutils/deputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index e00daba..aa3e9a3 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -247,7 +247,7 @@ def add_match(sentence, lmatches, macro):
         # remap feature node to sentence node label (type)
         matched_nodes = {fn: sentence.nodes[sn] for fn, sn in nodemapping.items()}
         # if the target filter is given, check whether the matched target node appear in the target filter
-        if macro.target_filter is not None:
+        if macro.target_filter:
             target_node_dict = matched_nodes[macro.target_idx]
             # example of target_node_dict: {'FORM': 'Het', 'LEMMA': 'het', 'POS': 'det'}
             vals = [target_node_dict[attr] for attr, _idx in macro.target_node_attrs.items() if attr not in ['FID', 'LID', 'fid', 'lid']]
-- 
2.43.0


From 285f1a04728942bceae2fe8b3d1040a76efaf3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 10/32] fix: swapped setting names of the single boundary
 machine

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index ce1679a..9de4c26 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -586,9 +586,9 @@ class CorpusFormatter(object):
 
         self.bound_mech = settings['boundary-detection-mechanism']
         if self.bound_mech == 'single':
-            if 'single-boundary-machine' in settings:
+            if 'separator-line-machine' in settings:
                 self._single_bound_machine = re.compile(settings['separator-line-machine'])
-            elif 'separator-line-machine' in settings:
+            elif 'single-boundary-machine' in settings:
                 self._single_bound_machine = re.compile(settings['single-boundary-machine'])
             else:
                 raise KeyError("You have set single boundary mechanism, "
-- 
2.43.0


From 0ecb0da60b95c800093ffd7eed4c417857213224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 11/32] fix: swapped branches for the default temporary path in
 BaseHandler

---
 nephosem/core/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 616e9a0..c34092d 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -255,8 +255,8 @@ class BaseHandler(Paralleler):
         if 'tmp-path' not in self.settings:
             # if 'tmp-path' is not set in the settings
             logger.warning("Not provide the temporary path!")
-            if 'output-path' not in self.settings:
-                # if 'output-path' is not set in the settings, use /output-path/tmp
+            if 'output-path' in self.settings:
+                # if 'output-path' is set in the settings, use /output-path/tmp
                 _tmpdir = os.path.join(self.settings['output-path'], 'tmp')
                 logger.warning("Use a sub tmp directory of the output-path: '/output-path/tmp'!")
             else:
-- 
2.43.0


From 39fcb7a0939b40e0ec26ebfe8330c0b4bba72646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 12/32] fix: unknown attributes of Vocab raise AttributeError
 (deepcopy and pickle broke)

---
 nephosem/core/vocab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index a76d0c3..8553bd6 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -182,6 +182,7 @@ class Vocab(object):
         # so vocab.freq returns itself
         if item == 'freq':
             return self
+        raise AttributeError(item)
 
     def __lt__(self, arg):
         if isinstance(arg, int) or isinstance(arg, float):
-- 
2.43.0


From 0389a5086ba7df5bb331020ab4f167d744bc0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 13/32] fix: compute_ppmi and calc_association without marginal
 frequencies

---
 nephosem/specutils/mxcalc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 37796e5..8d0da40 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -42,8 +42,8 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     """This method is faster than `compute_association()`.
     Set positive to False to get pmi values.
     """
-    tot_sum = float(nfreq.sum())
     freqmx = freqMTX.matrix
+    tot_sum = float(nfreq.sum()) if nfreq is not None else float(freqmx.sum())
     # select frequencies of row items / column items of freqMTX
     # from nfreq and cfreq
     if nfreq is None:
@@ -165,7 +165,8 @@ def calc_association(freqmx, nfreq=None, cfreq=None, N=None, meas='ppmi'):
         col_sum_vec = np.array(cfreq) if isinstance(cfreq, list) else cfreq
 
     # tot_sum = float(row_sum_vec.sum())
-    tot_sum = N  # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
+    # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
+    tot_sum = N if N is not None else row_sum_vec.sum()
     freqmx = freqmx.tocoo()  # transform to COOrdinate format, for easier usage
     row = freqmx.row  # -> stores row indices of values in csr_matrix
     col = freqmx.col  # -> stores column indices of values in csr_matrix
-- 
2.43.0


From ca856960d3498d2733a19ba24a52d23108684db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 14/32] fix: association measures of matrices with one row or
 one column

---
 nephosem/specutils/mxcalc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 8d0da40..271e7b7 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -48,12 +48,12 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     # from nfreq and cfreq
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
 
@@ -155,12 +155,12 @@ def calc_association(freqmx, nfreq=None, cfreq=None, N=None, meas='ppmi'):
     # we are calculating on a subset of the complete matrix
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array(nfreq) if isinstance(nfreq, list) else nfreq
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array(cfreq) if isinstance(cfreq, list) else cfreq
 
-- 
2.43.0


From b960927a787d0571f57b89ee54360b159b1be692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 15/32] fix: remove_duplicate of clusters that are not adjacent

---
 nephosem/models/cbc.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index beeff6c..7e71bb6 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -644,17 +644,14 @@ def remove_duplicate(clusters):
     """Remove duplicate clusters"""
     if len(clusters) <= 0:
         return clusters
-    prevs, prevc = clusters[0]  # -> previous score and cluster
-    diffL = [(prevs, set(prevc))]
-    for i in range(1, len(clusters)):
-        s, clust = clusters[i]
-        if abs(s - prevs) > 0.000000001 or sorted(clust) != sorted(prevc):
-            # if scores of two clusters are not close => they are not the same cluster
-            # if scores are very close => compare cluster elements
+    diffL = []
+    seen = set()  # -> element sets of the kept clusters
+    for s, clust in clusters:
+        # equal clusters need not be adjacent, when other clusters have the same score
+        key = frozenset(clust)
+        if key not in seen:
+            seen.add(key)
             diffL.append((s, set(clust)))
-            prevs, prevc = s, clust
-        else:  # same cluster
-            continue
     return diffL
 
 
-- 
2.43.0


From 4d76ea77a03673acf512646646197a91f42e4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 16/32] fix: TypeNode.sample of nodes made from a type string

---
 nephosem/core/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 9de4c26..688ce8b 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -258,7 +258,7 @@ class TypeNode(ItemNode):
         else:  # RETRIEVAL_METHOD_FIRST assumed
             sample_tokens = self.tokens[:n]
 
-        wn = TypeNode(type_str=self.type, type_fmt=self.type_fmt, tokens=sample_tokens)
+        wn = TypeNode(type_str=self.type, type_fmt=self.format, tokens=sample_tokens)
         return wn
 
     @classmethod
-- 
2.43.0


From 0c093ce1ac634a8a9a425be96001c2ca6e322b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 17/32] fix: TypeTokenMatrix.spmatrix_to_dict used an undefined
 name

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 0ef04e0..e20b7c8 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1501,4 +1501,4 @@ class TypeTokenMatrix(BaseMatrix):
 
     def spmatrix_to_dict(self):
         """Only for sparse matrix"""
-        return transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
+        return mxutils.transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
-- 
2.43.0


From 48c7ffa84ce099a9a78da4320330b55448013817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 18/32] fix: drop_zero_rows and drop_zero_cols called an
 unknown method

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index e20b7c8..27231ac 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -351,7 +351,7 @@ class SparseMatrix(BaseMatrix):
     def drop_zero_rows(self):
         """Drop rows with only zero values and return the dropped matrix"""
         if not isinstance(self.matrix, sp.coo_matrix):
-            coomx = self.matrix.to_coo()
+            coomx = self.matrix.tocoo()
         else:
             coomx = self.matrix
         nz_rows, new_row = np.unique(coomx.row, return_inverse=True)
@@ -361,7 +361,7 @@ class SparseMatrix(BaseMatrix):
     def drop_zero_cols(self):
         """Drop columns with only zero values and return the dropped matrix"""
         if not isinstance(self.matrix, sp.coo_matrix):
-            coomx = self.matrix.to_coo()
+            coomx = self.matrix.tocoo()
         else:
             coomx = self.matrix
         nz_cols, new_col = np.unique(coomx.col, return_inverse=True)
-- 
2.43.0


From 154bf66fcc74457660aa1c0e5f56c5b7744a18dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 19/32] fix: data frame conversions used functions removed from
 pandas

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 27231ac..10e60d1 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -152,7 +152,7 @@ class SparseMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.SparseDataFrame(self.matrix).to_dense()
+        return pd.DataFrame(self.matrix.toarray())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -1308,7 +1308,7 @@ class TypeTokenMatrix(BaseMatrix):
     def from_dataframe(cls, df, issparse=True):
         row_items = df.index.tolist()
         col_items = df.columns.tolist()
-        mx = df.as_matrix()
+        mx = df.values
         if issparse:
             mx = sp.csr_matrix(mx)
         return cls(mx, row_items, col_items)
-- 
2.43.0


From 448b9adc8412e977d29df76ae8e879eab5e52c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 20/32] fix: load_dict_plain of float frequencies in exponent
 notation

---
 nephosem/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ad8cd8c..6640720 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -267,7 +267,10 @@ def load_dict_plain(filename, encoding='utf-8'):
             pair = line.strip().split('\t')
             if len(pair) < 2:
                 continue
-            res_dict[pair[0]] = float(pair[1]) if '.' in pair[1] else int(pair[1])
+            try:
+                res_dict[pair[0]] = int(pair[1])
+            except ValueError:  # e.g. '0.5', '1e-07'
+                res_dict[pair[0]] = float(pair[1])
     return res_dict
 
 
-- 
2.43.0


From 4a66f9b3935d7b75bc0f1bb1096d8054a2b7ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 21/32] fix: sparse matrices can be compared with the threshold
 0 (<=, >=)

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 10e60d1..ce17857 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -214,7 +214,7 @@ class SparseMatrix(BaseMatrix):
         return resmx
 
     def __le__(self, other):
-        if other <= 0.0:
+        if other < 0.0:
             resmx = self.matrix <= other
         else:
             resmx = self._operator_positive(other, operator='le')
@@ -228,7 +228,7 @@ class SparseMatrix(BaseMatrix):
         return resmx
 
     def __ge__(self, other):
-        if other >= 0.0:
+        if other > 0.0:
             resmx = self.matrix >= other
         else:
             resmx = self._operator_positive(other, operator='ge')
-- 
2.43.0


From a4ae1a75c86ca21a6ccb1a07f66ef4fced8c78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 22/32] fix: most_similar returns exactly k other items when
 the item itself is not its own best match

---
 nephosem/core/matrix.py       | 10 ++++++----
 nephosem/specutils/mxutils.py |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index ce17857..f298a10 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -636,12 +636,14 @@ class SquareMatrix(BaseMatrix):
         a list of elements
 
         """
-        row = self.matrix[rid]
+        # all elements but the target itself: it is not always the best one of its own row
+        others = np.delete(np.arange(self.matrix.shape[0]), rid)
+        row = self.matrix[rid][others]
         if descending:  # for similarity matrix
-            idx = mxutils.get_largest_k(row, k+1)
+            idx = mxutils.get_largest_k(row, k)
         else:
-            idx = mxutils.get_smallest_k(row, k+1)
-        return idx
+            idx = mxutils.get_smallest_k(row, k)
+        return others[idx]
 
 
 class TypeTokenMatrix(BaseMatrix):
diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index c141352..c9234e1 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -296,6 +296,8 @@ def get_largest_k(arr, k):
     """
     if k >= arr.shape[0]:
         return np.arange(arr.shape[0])
+    if k == 0:
+        return np.arange(0)
     indices = np.argpartition(arr, -k)[-k:]  # see usage of numpy.argpartition
     return indices
 
-- 
2.43.0


From e5b653f46546f9ecab19e6f92d081e83e541bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:31 +0000
Subject: [PATCH 23/32] fix: retrieving tokens again with the same handler does
 not repeat the earlier tokens

---
 nephosem/models/typetoken.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index ef78cce..9fceb44 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -523,6 +523,9 @@ class TokenHandler(BaseHandler):
         """
         fnames = self.prepare_fnames(fnames)
         logger.info("Scanning tokens of queries in corpus...")
+        # start without the tokens of an earlier retrieval
+        self.type2toks = {w: TypeNode(type_str=w, type_fmt=self.formatter.type_format)
+                          for w in self.type2toks}
         res = self.process(fnames)
         self.type2toks = res
         logger.info("Creating matrix...")
-- 
2.43.0


From 03cdc8c7ea8b40647cad2ea9c53b3efc5d1999fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:31 +0000
Subject: [PATCH 24/32] fix: file names recorded in a fnames file are read with
 the corpus path and the configured encoding

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index c34092d..3d467f7 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -291,7 +291,7 @@ class BaseHandler(Paralleler):
                 pass  # do nothing, already a list of (string) file names
             elif isinstance(fnames, str):
                 # read file names recorded in the `fnames` ('xx.fnames') file
-                fnames = read_fnames(fnames, self.encoding)
+                fnames = read_fnames(fnames, self.corpus_path, self.encoding)
             else:
                 raise ValueError("Not support other types of 'fnames' (only str or a list of strings)!")
         if len(fnames) <= 0:
-- 
2.43.0


From e4f76fba1b462136abfb337497c393819f23263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:56 +0000
Subject: [PATCH 25/32] fix: start at least one worker process when the machine
 has a single processor

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 3d467f7..d812ac9 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -85,7 +85,7 @@ class Paralleler(object):
 
     def __init__(self, workers=0, **kwargs):
         # the number of CPU cores used by the program
-        self.workers = workers if 0 < workers < mp.cpu_count() else mp.cpu_count()-1
+        self.workers = workers if 0 < workers < mp.cpu_count() else max(mp.cpu_count()-1, 1)
         # add other possible arguments to the `__dict__` of the class
         self.__dict__.update(kwargs)
         # set default tmpdir
-- 
2.43.0


From 8567ed1f36314f9e7e7280cb3528956160b44fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:17 +0000
Subject: [PATCH 26/32] fix: let every committee be considered when similar
 committees are merged

get_merged_committee started at the second most similar entry and stopped
before the least similar one, on the premise that the most similar entry is
always the committee itself. Earlier committees are skipped anyway, so the loop
left one real candidate out: with two committees, or with duplicates, similar
committees stayed apart.
---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 7e71bb6..faf1496 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -573,7 +573,7 @@ def get_merged_committee(simmx, theta=0.35):
         sortidx = sortsimmx[i]
         # iterate over the indices from the largest one
         idx = -1
-        for j in range(-2, -(sortidx.shape[0]), -1):
+        for j in range(-1, -(sortidx.shape[0]) - 1, -1):
             tmpidx = sortidx[j]
             if tmpidx > i and tmpidx not in merged:
                 # if committee has not been processed
-- 
2.43.0


From 7c4d225778cf79f479aff14f9839c53ed0b8bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:03 +0000
Subject: [PATCH 27/32] fix: constructing a CorpusFormatter leaves the given
 settings as they are

---
 nephosem/core/terms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 688ce8b..21bb8ca 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -625,6 +625,7 @@ class CorpusFormatter(object):
         self.token_format = settings['token']  # e.g. 'word/pos/fid/lid'
         token_eles = settings['token'].split('/')[:-2]  # the last two parts are always 'fid' and 'lid'
         self._token = [col2id[e] for e in token_eles]  # -> [1, 3]
+        settings = deepcopy(settings)  # leave the caller's settings as they are
         if 'colloc' not in settings:  # if not set, use type format as colloc format
             settings['colloc'] = settings['type']
         self.colloc_format = settings['colloc']  # e.g. 'lemma' (means only lemma is used as collocate)
-- 
2.43.0


From 81f2382ab032a002e9df22ddcdcded50aec384e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:03 +0000
Subject: [PATCH 28/32] fix: template nodes and edges without attribute
 patterns match anything

---
 nephosem/specutils/deputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index aa3e9a3..61d2969 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -183,7 +183,7 @@ def tree_match(sentence, macro):
 
     # iterate over each sentence node that matches the root of the feature
     for v, vitem in sentence.nodes:
-        if not macro.match_node(vitem, idx=froot):
+        if macro.match_node(vitem, idx=froot) is None:
             continue
         mapping = {froot: v}  # mapping of the first level
         # recursively match the sentence with the feature from this node
@@ -346,7 +346,7 @@ def match_successors(sentence, scur, pattern, fcur):
                 vmatched = pattern.match_node(vitem, idx=fsuc)
                 ematched = pattern.match_edge(eitem, idx=(fcur, fsuc))
                 # if not matched, the returned vmatched or ematched should be None
-                if vmatched and ematched:
+                if vmatched is not None and ematched is not None:
                     msuccs.append(ssuc)
             # TODO: check for symmetry
             if len(msuccs) > 0:
-- 
2.43.0


From 26f7118e5b5a2e23f9955fda1ea4c76f44bb03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 29/32] fix: consecutive separator lines do not make an empty
 dependency sentence

---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 0fa64e8..baf1f79 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -301,7 +301,8 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 sentence.append((lid, line))  # add line index
             # if line.startswith(end_bound):  # end of a sentence
             if formatter.separator_line_machine(line):
-                yield sentence
+                if len(sentence) > 0:  # there may be no word between two separator lines
+                    yield sentence
                 sentence = []
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
-- 
2.43.0


From 591a06386abcfcd8fc2a5ab9e1d3f66f8531757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 30/32] fix: a second dependency run does not count the matches
 of the first again

---
 nephosem/models/deprel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index baf1f79..61a352e 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -137,6 +137,9 @@ class DepRelHandler(BaseHandler):
 
         """
         fnames = self.prepare_fnames(fnames)
+        for macro in self.macros:  # only count the matches of this run
+            macro.matched_nodes = []
+            macro.matched_edges = []
         logger.info("Building dependency features...")
         _res = self.process(fnames)
 
-- 
2.43.0


From 2cf728cf8296b93c71facc2a9c68e43d6a604ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 31/32] fix: the feature of a template starts at the root of
 the template

---
 nephosem/core/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e09e67a..b499451 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -31,7 +31,7 @@ import networkx as nx
 import xml
 from xml.dom import minidom
 
-from nephosem.specutils.deputils import match_graph, tree_match, get_depth, draw_tree, draw_match, parse_pattern
+from nephosem.specutils.deputils import match_graph, tree_match, get_depth, get_root, draw_tree, draw_match, parse_pattern
 
 logger = logging.getLogger(__name__)
 
@@ -704,7 +704,7 @@ class MacroGraph(PatternGraph):
         node_dict = self.matched_nodes[index]
         edge_dict = self.matched_edges[index]
         # preorder traversal, start from the root
-        start = 1
+        start = get_root(self.graph)
         reprs = []
         # add the string repr of the start node
         if start == self.target_idx:
-- 
2.43.0


From 1e6db4634d365d5c2a08529f5b6457449e5ab58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 32/32] fix: edge labels with a colon are kept whole in
 dependency features

---
 nephosem/core/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index b499451..1748d69 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -730,13 +730,13 @@ class MacroGraph(PatternGraph):
                 edge_repr = self.get_edge_repr((curr, succ), edge_attrs)
                 node_attrs = node_dict[succ]
                 node_repr = self.get_node_repr(succ, node_attrs)
-                succs.append((succ, ':'.join([edge_repr, node_repr])))
+                succs.append((succ, ':'.join([edge_repr, node_repr]), edge_repr))
             # sort the representations
             succs = sorted(succs, key=operator.itemgetter(1))
-            for succ, srepr in succs:
+            for succ, srepr, edge_repr in succs:
                 if succ == self.target_idx:
                     # replace the target node repr by '#T#'
-                    reprs.append(':'.join([srepr.split(':')[0], '#T#']))
+                    reprs.append(':'.join([edge_repr, '#T#']))
                 else:
                     reprs.append(srepr)
                 self.preorder_recur(node_dict, edge_dict, curr=succ, reprs=reprs)
-- 
2.43.0

