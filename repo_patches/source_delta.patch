From a2dfcf9287feaedb63a05e0fa7c93498076bd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 01/36] fix: keep regressors of A aligned with the triplets

The sort/threshold permutation was only applied to the regressors of A
when a triplet filter was present.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2760f7a..d8ee81c 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1139,7 +1139,7 @@ class Task(object):
                 regressors[name] = reg[iA]
                 if self.filters.ABX:
                     regressors[name] = regressors[name][ABX_filter_ind]
-                    regressors[name] = regressors[name][thr_sort_permut]
+                regressors[name] = regressors[name][thr_sort_permut]
 
         for names, regs in zip(self.regressors.B_names,
                                self.regressors.B_regressors):
-- 
2.43.0


From b387eac6e79a317a1027a93568cce8b24e254a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 02/36] fix: look up block members by label, not by position

The index of a by block has gaps once a generic filter removed rows, so
positional lookup of group labels hit the wrong row or raised.
---
 ABXpy/task.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index d8ee81c..bf483a7 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -412,7 +412,7 @@ class Task(object):
                     display.display()
 
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.iloc[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
 
                 # retrieve the on and across keys (as they are stored
                 # in the panda object)
@@ -818,7 +818,7 @@ class Task(object):
 
             # allow to get on, across, by values as well as values of
             # other variables that are determined by these
-            on_across_by_values = dict(db.iloc[block[0]])
+            on_across_by_values = dict(db.loc[block[0]])
             if self.filters.on_across_by_filter(on_across_by_values):
                 # instantiate on_across_by regressors here
                 self.regressors.set_on_across_by_regressors(
@@ -1017,7 +1017,7 @@ class Task(object):
             for block_key, n_block in (
                     iteritems(self.by_stats[by]['on_across_levels'])):
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.ix[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
                 on, across = on_across_from_key(block_key)
 
                 if self.filters.on_across_by_filter(on_across_by_values):
@@ -1055,8 +1055,8 @@ class Task(object):
                         else:
                             grouping = self.on + self.across
 
-                        n_level_B = len(db.iloc[B].groupby(grouping).groups)
-                        n_level_X = len(db.iloc[X].groupby(grouping).groups)
+                        n_level_B = len(db.loc[B].groupby(grouping).groups)
+                        n_level_X = len(db.loc[X].groupby(grouping).groups)
                         n = n + n_level_B * n_level_X
 
             self.by_stats[by]['nb_levels'] = n
-- 
2.43.0


From 602442437d2fd83e07249da1b6c5567d27e3a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 03/36] fix: keep items and features aligned when rows are
 dropped

Rows with missing values leave gaps in the index of the database, the
matching location rows must be selected by label.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index bf483a7..4cae293 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -302,7 +302,7 @@ class Task(object):
             # apply 'by' filters
             if self.filters.by_filter(by_values):
                 # get analogous feat_db
-                by_feat_db = feat_db.iloc[by_frame.index]
+                by_feat_db = feat_db.loc[by_frame.index]
 
                 # drop indexes
                 by_frame = by_frame.reset_index(drop=True)
-- 
2.43.0


From 0e58dd3400978d4e33004612d30709a24b3709c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 04/36] fix: size the stored integers by the values they have
 to hold

Triplets hold item indices and on_across_block_index holds triplet
counts: both were stored in a type sized by something else and could
wrap around.
---
 ABXpy/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 4cae293..9cbac46 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -741,7 +741,9 @@ class Task(object):
                 dataset='data',
                 n_rows=self.n_triplets,
                 n_columns=3,
-                item_type=fit_integer_type(self.total_n_triplets),
+                item_type=fit_integer_type(
+                    max(np.max(db.index.values)
+                        for db in itervalues(self.by_dbs))),
                 fixed_size=False)
 
             out_block_index = fh.add_dataset(
@@ -749,7 +751,7 @@ class Task(object):
                 dataset='on_across_block_index',
                 n_rows=self.stats['nb_blocks'],
                 n_columns=1,
-                item_type=fit_integer_type(self.stats['nb_blocks']),
+                item_type=fit_integer_type(self.total_n_triplets),
                 fixed_size=False)
 
             empty_by_blocks = []
-- 
2.43.0


From 6646be7e68b2e0d2c134ac4c83fe02531e9599ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 05/36] fix: sample positions in a type that can hold them

ind_type is sized by the number of regressor combinations, positions in
a block of triplets can wrap around in it.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 9cbac46..8871a8f 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1198,7 +1198,7 @@ def sort_and_threshold(permut, new_index, ind_type,
     for c in counts:
         if threshold and c > threshold:
             sampled_idx = sampler.sample_without_replacement(
-                threshold, c, dtype=ind_type)
+                threshold, c, dtype=permut.dtype)
             sampled_idx += i
             new_permut.append(permut[sampled_idx])
         else:
-- 
2.43.0


From 348b2340e3626da1a90fa1274aa96c46fea08009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 06/36] fix: close the descriptor of the temporary pairs file

It was leaked, and a failure of mkstemp was masked by a NameError in the
finally block.
---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 8871a8f..9fca5b7 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -858,8 +858,9 @@ class Task(object):
         # list all pairs
         n_pairs_dict = {}
         max_ind_dict = {}
+        fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
+        os.close(fd)
         try:
-            _, output_tmp = tempfile.mkstemp(dir=tmpdir)
             for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
-- 
2.43.0


From 79ff3fd2759d13ebd6adbaf7c7ae39d1880032c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 07/36] fix: generic filters using by columns or emptying a by
 block

The by columns of a generic filter were never put in its evaluation
context, and a by block without any item left made Task fail.
---
 ABXpy/sideop/filter_manager.py | 1 +
 ABXpy/task.py                  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/ABXpy/sideop/filter_manager.py b/ABXpy/sideop/filter_manager.py
index 8151402..6e29863 100644
--- a/ABXpy/sideop/filter_manager.py
+++ b/ABXpy/sideop/filter_manager.py
@@ -46,6 +46,7 @@ class FilterManager(side_operations_manager.SideOperationsManager):
             db_variables['generic'] = set(elements)
             self.generic.append(db_fun)
             self.generic_context['generic'].update(db_variables['generic'])
+            self.by_context['generic'].update(db_variables['by'])
             elements = {}
         return elements, db_variables
 
diff --git a/ABXpy/task.py b/ABXpy/task.py
index 9fca5b7..860c56b 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -315,6 +315,8 @@ class Task(object):
 
                 # apply generic filters
                 by_frame = self.filters.generic_filter(by_values, by_frame)
+                if len(by_frame) == 0:
+                    continue
 
                 self.by_dbs[by_key] = by_frame
                 self.feat_dbs[by_key] = by_feat_db
-- 
2.43.0


From 2f0e1af765f014e0fc75acdb2a71acbb0ed4c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 08/36] fix: check _AX against on columns and _AB against
 across columns

A and X share the on attributes, A and B the across attributes (this is
also what the error messages say).
---
 ABXpy/sideop/side_operations_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/sideop/side_operations_manager.py b/ABXpy/sideop/side_operations_manager.py
index 7527926..8f39db8 100644
--- a/ABXpy/sideop/side_operations_manager.py
+++ b/ABXpy/sideop/side_operations_manager.py
@@ -164,8 +164,8 @@ class SideOperationsManager(object):
         for r, s in elements:
             C1 = (s in ['_1', '_2'] and
                   not(r in self.on_cols or r in self.across_cols))
-            C2 = s == '_AX' and not(r in self.across_cols)
-            C3 = s == 'AB' and not(r in self.on_cols)
+            C2 = s == '_AX' and not(r in self.on_cols)
+            C3 = s == '_AB' and not(r in self.across_cols)
             if C1:
                 raise valueError(errC1, onAndAcross)
             if C2:
-- 
2.43.0


From ca47b954a5c0cbd994406b64cb816ae7e7108e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 09/36] fix: make the order of the default regressors
 deterministic

It followed the iteration order of a set of strings, so that the same
seed could give different triplets from one process to the next.
---
 ABXpy/sideop/regressor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sideop/regressor_manager.py b/ABXpy/sideop/regressor_manager.py
index 98aa6a5..7a524e5 100644
--- a/ABXpy/sideop/regressor_manager.py
+++ b/ABXpy/sideop/regressor_manager.py
@@ -21,7 +21,7 @@ class RegressorManager(side_operations_manager.SideOperationsManager):
         default_regressors = [on[0] + '_1', on[0] + '_2']
         # check if no across were specified
         if not(self.across_cols == set(["#across"])):
-            for col in self.across_cols:
+            for col in sorted(self.across_cols):
                 default_regressors.append(col + '_1')
                 default_regressors.append(col + '_2')
         # FIXME add default regressors only if they are not already specified ?
-- 
2.43.0


From 2d412e64715ac9ad914c618dd81344ad3aa6919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 10/36] fix: column name filters

The values of the column were wrapped in an additional list, which is
always true.
---
 ABXpy/dbfun/dbfun_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_column.py b/ABXpy/dbfun/dbfun_column.py
index 078b6e3..98da15a 100644
--- a/ABXpy/dbfun/dbfun_column.py
+++ b/ABXpy/dbfun/dbfun_column.py
@@ -36,4 +36,4 @@ class DBfun_Column(dbfun.DBfun):
             return [np.array([self.index.index(e)
                     for e in context[self.input_names[0]]])]
         else:
-            return [context[self.input_names[0]]]
+            return context[self.input_names[0]]
-- 
2.43.0


From ca4c964007eba0db2322067c86f1837358b250e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 11/36] fix: mark the distance file as done with several jobs
 too

---
 ABXpy/distances/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ea3ae86..6ff14a7 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -324,8 +324,8 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
         run_distance_job(
             jobs[0], distance_file, distance,
             feature_files, feature_groups, splitted_features, 1, normalized)
-        with h5py.File(distance_file, 'a') as fh:
-            fh.attrs.modify('done', True)
+    with h5py.File(distance_file, 'a') as fh:
+        fh.attrs.modify('done', True)
 
 
 # hack, external function for visibility reasons
-- 
2.43.0


From 807f82b74320dd1a2067db4c509d4b3ec4542dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 12/36] fix: release the file lock when reading or writing
 fails

The other workers waited for it forever.
---
 ABXpy/distances/distances.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 6ff14a7..f373be7 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -201,17 +201,19 @@ def run_distance_job(job_description, distance_file, distance,
         # load pandas dataframe containing info for loading the features
         if synchronize:
             distance_file_lock.acquire()
-        store = pandas.HDFStore(pair_file)
-        by_db = store['feat_dbs/' + by]
-        store.close()
-        # load pairs to be computed
-        # indexed relatively to the above dataframe
-        with h5py.File(pair_file, 'r') as fh:
-            attrs = fh['unique_pairs'].attrs[by]
-            pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
-            base = attrs[0]
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            store = pandas.HDFStore(pair_file)
+            by_db = store['feat_dbs/' + by]
+            store.close()
+            # load pairs to be computed
+            # indexed relatively to the above dataframe
+            with h5py.File(pair_file, 'r') as fh:
+                attrs = fh['unique_pairs'].attrs[by]
+                pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
+                base = attrs[0]
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
         A = np.mod(pair_list, base)
         B = pair_list // base
@@ -269,10 +271,12 @@ def run_distance_job(job_description, distance_file, distance,
                 raise
         if synchronize:
             distance_file_lock.acquire()
-        with h5py.File(distance_file, 'a') as fh:
-            fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            with h5py.File(distance_file, 'a') as fh:
+                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
 
 # mem in megabytes
-- 
2.43.0


From b292304992bf433806e4aaf1c0481f08605c5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 13/36] fix: keep the block size of distance jobs an integer

---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index f373be7..24dd359 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -82,7 +82,7 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
     max_block_size = min(
         np.int64(np.ceil(total_n_pairs / np.float(n_cpu))),
         # buffer_max_size * 1000000 / np.dtype(by_n_pairs).itemsize)
-        buffer_max_size * 1000000 / 8)
+        buffer_max_size * 1000000 // 8)
     by = []
     start = []
     stop = []
-- 
2.43.0


From 92da0b7649e6b506bbacf7bc91a112387e149a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 14/36] fix: do not normalize the features of the caller in
 place

The same arrays are used for several pairs of items.
---
 ABXpy/distances/metrics/cosine.py           |  4 ++--
 ABXpy/distances/metrics/kullback_leibler.py | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ABXpy/distances/metrics/cosine.py b/ABXpy/distances/metrics/cosine.py
index e6191bd..91329f9 100644
--- a/ABXpy/distances/metrics/cosine.py
+++ b/ABXpy/distances/metrics/cosine.py
@@ -36,6 +36,6 @@ def cosine_distance(x, y):
 
 
 def normalize_cosine_distance(x, y):
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     return cosine_distance(x, y)
diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index cea21c1..d9a41b0 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -38,14 +38,14 @@ def kl_divergence(x, y, thresholded=True, symmetrized=True, normalize=True):
     if thresholded:
         normalize = True
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     if thresholded:
         eps = np.finfo(x.dtype).eps
         x = x + eps
         y = y + eps
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     res = __kl_divergence(x, y)
 
     if symmetrized:
@@ -67,8 +67,8 @@ def js_divergence(x, y, normalize=True):
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
 
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
@@ -99,8 +99,8 @@ def hellinger_distance(x, y):
     assert (x.dtype == np.float64 and y.dtype == np.float64) or (
         x.dtype == np.float32 and y.dtype == np.float32)
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     x = np.sqrt(x)
     y = np.sqrt(y)
     # x (120, 40), y (100, 40), H(x,y) (120, 100)
-- 
2.43.0


From d46ca3f7e5de5922ed5127ff1bfb1bc6ec3bd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 15/36] fix: example distances did not pass the normalization
 to dtw

---
 ABXpy/distances/example_distances.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/example_distances.py b/ABXpy/distances/example_distances.py
index 3c39923..8d58dd8 100644
--- a/ABXpy/distances/example_distances.py
+++ b/ABXpy/distances/example_distances.py
@@ -4,7 +4,7 @@ import ABXpy.distances.metrics.kullback_leibler as kullback_leibler
 import numpy as np
 
 
-def dtw_cosine(x, y):
+def dtw_cosine(x, y, normalized=True):
     """Dynamic time warping cosine distance
 
     The "feature" dimension is along the columns and the "time"
@@ -13,7 +13,8 @@ def dtw_cosine(x, y):
     """
     if x.shape[0] > 0 and y.shape[0] > 0:
         # x and y are not empty
-        d = dtw.dtw(x, y, cosine.cosine_distance)
+        d = dtw.dtw(x, y, cosine.cosine_distance,
+                    normalized=normalized)
     elif x.shape[0] == y.shape[0]:
         # both x and y are empty
         d = 0
@@ -23,10 +24,11 @@ def dtw_cosine(x, y):
     return d
 
 
-def dtw_kl_divergence(x, y):
+def dtw_kl_divergence(x, y, normalized=True):
     """Kullback-Leibler divergence"""
     if x.shape[0] > 0 and y.shape[0] > 0:
-        d = dtw.dtw(x, y, kullback_leibler.kl_divergence)
+        d = dtw.dtw(x, y, kullback_leibler.kl_divergence,
+                    normalized=normalized)
     elif x.shape[0] == y.shape[0]:
         d = 0
     else:
-- 
2.43.0


From d6c40830eedd556d463d7e633f27863ca3255189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 16/36] fix: loading of auxiliary database files

---
 ABXpy/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index d18e232..584f629 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -87,7 +87,7 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxfile, auxdb.columns[0], col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
-                    basename, auxdb, auxdb.columns[1:])
+                    basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-- 
2.43.0


From 285a2452cb445df4457d9d72acb276a08d6dc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 17/36] fix: score without an explicit score file

---
 ABXpy/score.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index a228e4f..cf6d783 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -63,7 +63,8 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
     """
     if score_file is None:
         (basename_task, _) = os.path.splitext(task_file)
-        (basename_dist, _) = os.path.splitext(distance_file)
+        (basename_dist, _) = os.path.splitext(
+            os.path.basename(distance_file))
         score_file = basename_task + '_' + basename_dist + '.score'
     # file verification:
     assert os.path.exists(task_file), 'Cannot find task file ' + task_file
@@ -137,7 +138,7 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if os.path.exists(args.score):
+    if args.score and os.path.exists(args.score):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From 6187113ee44541d1ffa28ddec9ca2983d25bf9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 18/36] fix: iteration over an IncrementalSampler in python 3

---
 ABXpy/sampling/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 69df970..8247861 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -51,11 +51,13 @@ class IncrementalSampler(object):
         return self
 
     # method for implementing the iterable pattern
-    def next(self):
+    def __next__(self):
         if self.N == 0:
             raise StopIteration
         return self.sample(self.step)
 
+    next = __next__
+
     def sample(self, n, dtype=np.int64):
         """Fast implementation of the sampling function
 
-- 
2.43.0


From 1bb6891aaf091562b5c9f6ba26c8da2a141eb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 19/36] fix: verify with current h5features files

The list of files has been renamed in h5features files, columns of item
files can be separated by tabs, and the check must not write to the
features file.
---
 ABXpy/verify.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index fbaf428..024a7c9 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -42,10 +42,16 @@ def check(item_file, features_file, verbose=0):
         assert cols[3][0] == '#', 'The fourth column must start with #'
         if verbose:
             print("Opening features file")
-        h5f = h5py.File(features_file)
-        files = h5f['features']['files'][:]
+        with h5py.File(features_file, 'r') as h5f:
+            group = h5f['features']
+            # 'files' was renamed 'items' in version 1.1 of h5features
+            names = group['items' if 'items' in group else 'files'][:]
+        files = [n.decode('utf8') if isinstance(n, bytes) else n
+                 for n in names]
         for line in f:
-            source = str.split(line, ' ')[0]
+            if not line.strip():
+                continue
+            source = str.split(line)[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From f99a5758a314fa8f979cf52e4bba26c7a637c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:28 +0000
Subject: [PATCH 20/36] fix: decode group keys of the analysis in integers

---
 ABXpy/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 569325c..992c8b6 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -40,12 +40,12 @@ def npdecode(keys, max_ind):
     """Vectorized implementation of the decoding of the labels:
     i = (a1*n2 + a2)*n3 + a3 ...
     """
-    res = np.empty((len(keys), len(max_ind)))
+    res = np.empty((len(keys), len(max_ind)), dtype=keys.dtype)
     aux = keys
     k = len(max_ind)
     for i in range(k - 1):
         res[:, k - 1 - i] = np.mod(aux, max_ind[k - 1 - i])
-        aux = np.divide(aux - res[:, k - 1 - i], max_ind[k - 1 - i])
+        aux = np.floor_divide(aux, max_ind[k - 1 - i])
     res[:, 0] = aux
     return res
 
-- 
2.43.0


From 6591e87c7e8ddd6975e0647c17a787b785caf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:28 +0000
Subject: [PATCH 21/36] fix: detect group keys of the analysis that do not fit

---
 ABXpy/analyze.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 992c8b6..df6f84f 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -82,9 +82,12 @@ def collapse(scorefile, taskfile, fid):
         tmp = np.ascontiguousarray(indices).view(
             np.dtype((np.void, indices.dtype.itemsize * indices.shape[1])))
         n_indices = np.max(indices, 0) + 1
-        assert np.prod(n_indices) < 18446744073709551615, "type not big enough"
-        ind_type = fit_integer_type(np.prod(n_indices),
-                                    is_signed=False)
+        # exact product, a numpy one would silently wrap around
+        n_keys = 1
+        for n in n_indices:
+            n_keys *= int(n)
+        assert n_keys < 18446744073709551615, "type not big enough"
+        ind_type = fit_integer_type(n_keys, is_signed=False)
         # encoding the indices of a triplet to a unique index
         new_index = indices[:, 0].astype(ind_type)
         for i in range(1, len(n_indices)):
-- 
2.43.0


From f9a7a160f3139f0647618eb6759435533bc60485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:57 +0000
Subject: [PATCH 22/36] fix: uniform time warping with positions between two
 frames

The test that a position is between two frames compared floating point
numbers and missed some because of rounding errors.
---
 ABXpy/distances/metrics/utw.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/metrics/utw.py b/ABXpy/distances/metrics/utw.py
index 4cdbe1f..96b0027 100644
--- a/ABXpy/distances/metrics/utw.py
+++ b/ABXpy/distances/metrics/utw.py
@@ -38,10 +38,12 @@ def utw(x, y, div):
 def distance_coordinates(n1, n2):
     assert(n1 <= n2)
     l1 = np.arange(n2)
-    l2 = n1/np.float(n2)*(np.arange(n2)+0.5)
-    l3 = np.floor(l2).astype(np.int)
-    integers = np.where(l2 == l3)[0]
-    non_integers = np.where(l2 != l3)[0]
+    # the positions (l1+0.5)*n1/n2, with integers as rounding errors would
+    # hide the positions that are between two frames
+    l2 = n1*(2*l1+1)
+    l3 = l2//(2*n2)
+    integers = np.where(l2 == l3*2*n2)[0]
+    non_integers = np.where(l2 != l3*2*n2)[0]
     l3i = l3[integers]
     l1i = l1[integers]
     i_half = np.concatenate([l3i-1, l3i])
-- 
2.43.0


From 43e754061d6e6c8d30850d1e22e928cfe9b0199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:06 +0000
Subject: [PATCH 23/36] fix: combined regressor keys of the sampling threshold
 do not overflow

---
 ABXpy/task.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 860c56b..d092951 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -596,15 +596,18 @@ class Task(object):
                     # FIXME how do we know that all regressors are in
                     # integer format here ? This is only guaranteed
                     # for indexed regressors...
-                    assert np.prod(n_regs) < 18446744073709551615, \
-                        "type not big enough"
-
-                    reg_ind_type = fit_integer_type(
-                        np.prod(n_regs), is_signed=False)
-
-                    new_index = regs[:, 0].astype(reg_ind_type)
+                    new_index = regs[:, 0]
+                    n_keys = int(n_regs[0])
                     for i in range(1, len(n_regs)):
+                        if n_keys * int(n_regs[i]) >= 2 ** 63:
+                            # the keys would overflow: number the keys
+                            # in use, in the same order
+                            new_index = np.unique(
+                                new_index, return_inverse=True)[1]
+                            n_keys = int(np.max(new_index)) + 1
+                        n_keys *= int(n_regs[i])
                         new_index = regs[:, i] + n_regs[i] * new_index
+                    reg_ind_type = fit_integer_type(n_keys, is_signed=False)
 
                     permut = np.argsort(new_index)
 
-- 
2.43.0


From 8402bc7804a1c3d5a1b8877e4f9d0a9624732e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 24/36] fix: an empty chunk of a population of one samples
 nothing

---
 ABXpy/sampling/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 8247861..1604013 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -141,7 +141,7 @@ def hypergeometric_sample(N, K, n):
     """
     # handling edge cases
     if N == 0 or N == 1:
-        k = K
+        k = min(K, n)
     else:
         # using symmetries to speed up computations
         # if the probability of failure is smaller than the probability of
-- 
2.43.0


From 8ca84a219d69f091af61eb58e5c55bb0c5534860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 25/36] fix: default chunk size of a sampler of no items

---
 ABXpy/sampling/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 1604013..badaba5 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -42,7 +42,7 @@ class IncrementalSampler(object):
         # step used when iterating over the sampler
         if step is None:
             # 10**4 samples by iteration on average
-            self.step = 10 ** 4 * N // K
+            self.step = 10 ** 4 * N // max(K, 1)
         else:
             self.step = step
 
-- 
2.43.0


From b8ef62bfec6f363f4e1df4d3ed94396ba7444688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 26/36] fix: a chunk read from an exhausted sampler is empty

---
 ABXpy/sampling/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index badaba5..7287ba4 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -85,7 +85,7 @@ class IncrementalSampler(object):
             n = self.N
 
         # expected number of sampled items
-        expected_k = n * self.K / np.float(self.N)
+        expected_k = n * self.K / np.float(max(self.N, 1))
         if expected_k > 10 ** 5:
             sample = []
             chunk_size = int(np.floor(10 ** 5 * self.N / np.float(self.K)))
-- 
2.43.0


From 530c3cfe7f58e640428310a7b5451d5d28d9c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 27/36] fix: task --stats-only removed the existing task file

---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index d092951..b9d1081 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1352,7 +1352,7 @@ def main():
     # checks on the output file
     # if args.stats_only:
     #     assert args.output, "The output file was not provided"
-    if args.output and os.path.exists(args.output):
+    if not args.stats_only and args.output and os.path.exists(args.output):
         warnings.warn("Overwriting task file " + args.output, UserWarning)
         os.remove(args.output)
 
-- 
2.43.0


From 75c8ec578eb6f54504dfb192da817619e4bbccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 28/36] fix: analyze reports success for missing input files

---
 ABXpy/analyze.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index df6f84f..5d3ea1a 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -193,13 +193,11 @@ def main():
 
     score_file = args['scorefile']
     if not path.exists(score_file):
-        print('No such file: {}'.format(score_file))
-        exit()
+        exit('No such file: {}'.format(score_file))
 
     task_file = args['taskfile']
     if not path.exists(task_file):
-        print('No such file: {}'.format(task_file))
-        exit()
+        exit('No such file: {}'.format(task_file))
 
     result_file = args['output']
     if os.path.exists(result_file):
-- 
2.43.0


From 0f95fa911a9aef3214e56ceb469393b5878600db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 29/36] fix: distance functions of modules in a directory with
 dots in its path

---
 ABXpy/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index cdb5a0e..88e4d7b 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -79,7 +79,7 @@ def run(features, task, output, normalized,
         elif distance=="dtw_kl":
             distancefun = dtw_kl_distance
         else:
-            distancepair = distance.split('.')
+            distancepair = distance.rsplit('.', 1)
             distancemodule = distancepair[0]
             distancefunction = distancepair[1]
             path, mod = os.path.split(distancemodule)
-- 
2.43.0


From 9a4af8ba3c9ed3ff5bb259c8c090e9e2c87cbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 30/36] fix: distance removed the existing output of a call it
 rejects

---
 ABXpy/distance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index 88e4d7b..fc8208d 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -134,14 +134,14 @@ def main():
 
     args = parser.parse_args()
 
-    if os.path.exists(args.output):
-        warnings.warn("Overwriting distance file " + args.output, UserWarning)
-        os.remove(args.output)
-
     # if dtw distance selected, fore use of normalization parameter :
     if (args.distance is None and args.normalization is None):
         sys.exit("ERROR : DTW normalization parameter not specified !")
 
+    if os.path.exists(args.output):
+        warnings.warn("Overwriting distance file " + args.output, UserWarning)
+        os.remove(args.output)
+
     run(args.features, args.task, args.output, normalized=args.normalization,
         distance=args.distance, njobs=args.njobs, group=args.group)
 
-- 
2.43.0


From 3a7a681c32c99e9a9356a33a40d54f594940d757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 31/36] fix: names of files that look like numbers are read as
 text

---
 ABXpy/database/database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 584f629..b49e0e7 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -9,7 +9,9 @@ import ABXpy.misc.tinytree as tinytree
 # custom read_table that ignore empty entries at the end of a file (they
 # can result from trailing white spaces at the end for example)
 def read_table(filename):
-    db = pandas.read_csv(filename, sep='[ \t]+', engine='python')
+    # the names of the files are text, even when they look like numbers
+    db = pandas.read_csv(
+        filename, sep='[ \t]+', engine='python', dtype={'#file': str})
     # removes row with all null values (None or NaN...)
     db = db.dropna(how='all')
     return db
-- 
2.43.0


From 675ddfb01ee58e0310ad3e5a594fe1cf0a565fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:04 +0000
Subject: [PATCH 32/36] fix: several lines of an auxiliary file for the same
 value misaligned the items

---
 ABXpy/database/database.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index b49e0e7..113af91 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -87,6 +87,10 @@ def load_aux_dbs(basename, db, cols, mainfile):
                     'First column name in file %s'
                     ' is %s. It should be %s instead.' % (
                         auxfile, auxdb.columns[0], col))
+                # the items would be duplicated by the merge
+                assert not auxdb[col].duplicated().any(), (
+                    'File %s has several lines for the same %s' % (
+                        auxfile, col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
                     basename, auxdb, auxdb.columns[1:], mainfile)
-- 
2.43.0


From 2b6ca5177f6c2b5532b08caead301d2556298698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:57 +0000
Subject: [PATCH 33/36] fix: open the files which a step only reads for reading

Scoring opened the task file, the analysis the score file and the
distance jobs the task file for writing. They failed on files which may
only be read, and when two computations shared a file.
---
 ABXpy/analyze.py             | 2 +-
 ABXpy/distances/distances.py | 2 +-
 ABXpy/h5tools/h52np.py       | 5 +++--
 ABXpy/score.py               | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 5d3ea1a..fecd2a6 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -64,7 +64,7 @@ def collapse(scorefile, taskfile, fid):
 
     """
     # We make the assumption that everything fits in memory...
-    scorefid = h5py.File(scorefile, 'r+')
+    scorefid = h5py.File(scorefile, 'r')
     taskfid = h5py.File(taskfile, 'r')
     bys = taskfid['bys'][...]
     for by_idx, by in enumerate(bys):
diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 24dd359..6c8f606 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -202,7 +202,7 @@ def run_distance_job(job_description, distance_file, distance,
         if synchronize:
             distance_file_lock.acquire()
         try:
-            store = pandas.HDFStore(pair_file)
+            store = pandas.HDFStore(pair_file, 'r')
             by_db = store['feat_dbs/' + by]
             store.close()
             # load pairs to be computed
diff --git a/ABXpy/h5tools/h52np.py b/ABXpy/h5tools/h52np.py
index 34fda70..a269847 100644
--- a/ABXpy/h5tools/h52np.py
+++ b/ABXpy/h5tools/h52np.py
@@ -22,11 +22,12 @@ class H52NP(object):
     # sink is the name of the HDF5 file to which to write, buffer size is in
     # kilobytes
 
-    def __init__(self, h5file):
+    def __init__(self, h5file, mode='r+'):
         # set up output file and buffer list
         if isinstance(h5file, str):
             self.manage_file = True
             self.filename = h5file
+            self.mode = mode
             self.file_open = False
         else:  # supposed to be a h5 file handle
             self.manage_file = False
@@ -37,7 +38,7 @@ class H52NP(object):
 
     def __enter__(self):
         if not(self.file_open):
-            self.file = h5py.File(self.filename, 'r+')
+            self.file = h5py.File(self.filename, self.mode)
             self.file_open = True
         return self
 
diff --git a/ABXpy/score.py b/ABXpy/score.py
index cf6d783..aa08f3c 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -96,7 +96,7 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
                 base = pair_attrs[0]
                 pair_key_type = type_fitting.fit_integer_type((base) ** 2 - 1,
                                                               is_signed=False)
-            with h52np.H52NP(task_file) as t:
+            with h52np.H52NP(task_file, 'r') as t:
                 inp = t.add_subdataset('triplets', 'data', indexes=trip_attrs)
                 idx_start = trip_attrs[0]
                 for triplets in inp:
-- 
2.43.0


From abab8b304ef9ccaa47753518de03733e75a804d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 34/36] fix: show the progress without a standard input

The display asked for the descriptor of the standard input, and failed
where it has none: in a notebook, in a daemon, when it is closed.
---
 ABXpy/misc/progress_display.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ABXpy/misc/progress_display.py b/ABXpy/misc/progress_display.py
index 2b1ba86..e8cb165 100644
--- a/ABXpy/misc/progress_display.py
+++ b/ABXpy/misc/progress_display.py
@@ -17,9 +17,10 @@ class ProgressDisplay(object):
         # something that would work on all tty devices ... might rather be a
         # VT100 feature, but not sure how to detect if the stdio is a VT100
         # from python ...
-        if os.isatty(sys.stdin.fileno()):
-            self.is_tty = True
-        else:
+        try:
+            self.is_tty = os.isatty(sys.stdin.fileno())
+        except (AttributeError, ValueError, EnvironmentError):
+            # no standard input, or one without a file descriptor
             self.is_tty = False
 
     def add(self, name, message, total):
-- 
2.43.0


From ab5a4f7741399bcc3f26547e48631dc80a2f3f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:05 +0000
Subject: [PATCH 35/36] fix: functions defined in a script had no access to its
 imports, variables and columns

---
 ABXpy/dbfun/dbfun_compute.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_compute.py b/ABXpy/dbfun/dbfun_compute.py
index cebe546..6891048 100644
--- a/ABXpy/dbfun/dbfun_compute.py
+++ b/ABXpy/dbfun/dbfun_compute.py
@@ -174,8 +174,10 @@ class DBfun_Compute(dbfun.DBfun):
     # context is a dictionary with just the right name/content associations
     def evaluate(self, context):
         # set up context
+        # use a single namespace, otherwise the functions defined in the script
+        # have no access to its imports and variables
         ns_local = context
-        ns_global = {}
+        ns_global = ns_local
         # exec imports in that context
         exec(self.import_bytecode, ns_global, ns_local)
         # evaluate the calls to aux functions
-- 
2.43.0


From 778864c7fe02a19b66b13bf45cbdf8c8ab2311ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:05 +0000
Subject: [PATCH 36/36] fix: scripts with a with statement could not be parsed
 in Python 3

---
 ABXpy/dbfun/dbfun_compute.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ABXpy/dbfun/dbfun_compute.py b/ABXpy/dbfun/dbfun_compute.py
index 6891048..9221675 100644
--- a/ABXpy/dbfun/dbfun_compute.py
+++ b/ABXpy/dbfun/dbfun_compute.py
@@ -132,7 +132,7 @@ class DBfun_Compute(dbfun.DBfun):
         withs = [stat for stat in tree.body if isinstance(stat, ast.With)]
         kept = []
         for i, w in enumerate(withs):
-            if isinstance(w.context_expr, ast.Str):
+            if isinstance(with_item(w).context_expr, ast.Str):
                 kept.append((i, w))
         if len(kept) > 1:
             raise ValueError(
@@ -142,9 +142,9 @@ class DBfun_Compute(dbfun.DBfun):
             # find the h5 files and aliases
             s = kept[0][1]
             while (isinstance(s, ast.With) and
-                   isinstance(w.context_expr, ast.Str)):
-                self.aux_files.append(s.context_expr.s)
-                self.aliases.append(s.optional_vars.id)
+                   isinstance(with_item(s).context_expr, ast.Str)):
+                self.aux_files.append(with_item(s).context_expr.s)
+                self.aliases.append(with_item(s).optional_vars.id)
                 s = s.body[0]
             # remove with statement from ast
             stats = []
@@ -197,6 +197,11 @@ class DBfun_Compute(dbfun.DBfun):
         return eval(self.final_bytecode, ns_global, ns_local)
 
 
+def with_item(node):
+    # since Python 3.3 the context is in the items of the with node
+    return getattr(node, 'items', [node])[0]
+
+
 # visitor class for getting the list of the names of the variables in expr
 # (minus the import statements)
 class nameVisitor(ast.NodeVisitor):
-- 
2.43.0

