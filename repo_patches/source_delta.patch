From 6738a67b621fe6925cff190cfebfe46f18d25ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 01/48] fix: index sufficient statistics correctly when
 cardinalities differ

The strides used to address the residence time and transition tables were only
right when the node and all of its parents had the same cardinality.
---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..b8ec07f 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,7 +81,7 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * np.append(1, scalar_indexes_struct[:-1]), axis=1)
                            .astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
@@ -105,7 +105,7 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * np.append(1, scalar_indexing[:-1]), axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From 11ece81a29552c6e36fd517432d0150a7d859b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 02/48] fix: enumerate parent combinations correctly when
 cardinalities differ

The first two columns were swapped, so a parent was given the states of the
other one unless both had the same cardinality.
---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From 98e31925a7a9ec7717349c45afdb134e85238e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 03/48] fix: sample sojourn times with the exit rate as rate,
 not as mean

numpy's exponential takes the scale, which is the inverse of the intensity.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..502aeb4 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -99,7 +99,7 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    time[i] = t + random.exponential(scale = 1 / param)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From a180c3304eae6788f03b35702c4093c84a023743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 04/48] fix: keep the sampled times instead of truncating them
 to integers

A frame whose first row is all integers has integer columns, so every time
written to it was truncated (to 0 with recent pandas).
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 502aeb4..fe094f9 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,14 +77,13 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0.0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames))
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
 
         while True:
-            current_values = sigma.loc[len(sigma) - 1]
+            current_values = sigma[self._vnames].loc[len(sigma) - 1]
             
             for i in range(0, time.size):
                 if np.isnan(time[i]):
@@ -123,9 +122,9 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
-                new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
-                new_row.loc[0].at["Time"] = round(t, 4)
+                new_row = sigma[-1:].copy()
+                new_row[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
+                new_row["Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
 
                 n_tr += 1
-- 
2.43.0


From 8e62eedf70cd504a7de8f3e7c1d7bcabaa532457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 05/48] fix: sample from CIMs with integer coefficients

The in-place division of an integer row raised a casting error.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index fe094f9..e0fd001 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -117,7 +117,7 @@ class TrajectoryGenerator(object):
                 else:
                     cim = cim_obj[0].cim
                     
-                cim_row = np.array(cim[current_values.at[self._vnames[next]]])
+                cim_row = np.array(cim[current_values.at[self._vnames[next]]], dtype = float)
                 cim_row[current_values.at[self._vnames[next]]] = 0
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
-- 
2.43.0


From 03323c571901263671bbac13eedb054db2c45af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 06/48] fix: give every process of multi_trajectory its own
 random seed

All the forked processes inherited the same state of the generator, so that
the trajectories were copies of each other.
---
 .../PyCTBN/structure_graph/trajectory_generator.py   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index e0fd001..ae3877d 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -135,7 +135,7 @@ class TrajectoryGenerator(object):
                     if self._vnames[next] in self._parents[v]:
                         time[i] = np.NaN
 
-    def worker(self, t_end, max_tr, trajectories):
+    def worker(self, t_end, max_tr, trajectories, seed = None):
         """Single process that will be executed in parallel in order to generate one trajectory. 
 
             :param t_end: If defined, the sampling ends when end time is reached
@@ -144,8 +144,13 @@ class TrajectoryGenerator(object):
             :type max_tr: int
             :param trajectories: Shared list that contains to which the generated trajectory is added
             :type trajectories: list
+            :param seed: If defined, seed of the random numbers used by this process
+            :type seed: int
         """
         
+        if seed is not None:
+            np.random.seed(seed)
+
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
@@ -164,10 +169,11 @@ class TrajectoryGenerator(object):
 
         trajectories = Manager().list()
 
+        # Every process needs its own seed, otherwise all of them inherit the same random state
         if t_ends is not None:
-            processes = [Process(target = self.worker, args = (t, -1, trajectories)) for t in t_ends]
+            processes = [Process(target = self.worker, args = (t, -1, trajectories, np.random.randint(2**31 - 1))) for t in t_ends]
         else:   
-            processes = [Process(target = self.worker, args = (-1, m, trajectories)) for m in max_trs]
+            processes = [Process(target = self.worker, args = (-1, m, trajectories, np.random.randint(2**31 - 1))) for m in max_trs]
 
         for p in processes:
             p.start()
-- 
2.43.0


From 40ea12c9efac9be5c105f2ff1f5b254dff29b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 07/48] fix: build a TrajectoryGenerator from a network without
 edges

The frame imported from an empty list of edges has no columns, so that looking
for the parents raised a KeyError.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index ae3877d..70cac31 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -37,7 +37,9 @@ class TrajectoryGenerator(object):
  
         self._parents = {}
         for v in self._vnames:
-            if importer is not None:
+            if importer is not None and self._importer._df_structure.empty:
+                self._parents[v] = []
+            elif importer is not None:
                 self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
             else:
                 self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
-- 
2.43.0


From f4852e08d34bbca856b90f6f68c211b299935357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 08/48] fix: bind imported CIMs to the parents named in their
 keys

The names were ignored and only one digit of each state was read: CIMs were
used for the wrong parents assignment if the edges or the keys were listed in
another order, or if a parent had more than ten states.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 70cac31..f527b96 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -51,8 +51,11 @@ class TrajectoryGenerator(object):
             for v in sampled_cims.keys():
                 p_combs = []
                 v_cims = []
-                for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
+                # The keys tell which state every parent is in: follow the names, not the order of the file
+                assignments = {comb: [int(re.search(r"(?:^|,)\s*" + re.escape(p) + r"=(\d+)", comb).group(1)) for p in self._parents[v]]
+                    for comb in sampled_cims[v].keys()}
+                for comb in sorted(assignments, key = assignments.get):
+                    p_combs.append(np.array(assignments[comb], dtype = int))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From cf420f5142d5dc283fb78b7107b4a1b86bf2aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 09/48] fix: match parents and CIMs independently of the order
 of the edges

The columns of p_combs follow the order of the variables, while the parents
were taken in the order in which the edges are listed.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 +++-
 PyCTBN/PyCTBN/utility/json_exporter.py                | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index f527b96..3cca5c7 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -42,7 +42,9 @@ class TrajectoryGenerator(object):
             elif importer is not None:
                 self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
             else:
-                self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
+                parents = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
+                # Same order as the columns of p_combs, whatever the order of the edges
+                self._parents[v] = [p for p in self._vnames if p in parents]
         
         self._cims = {}
         if importer is not None:
diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 43b11da..7e3a9aa 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -52,6 +52,8 @@ class JsonExporter(AbstractExporter):
         for i, l in enumerate(self._variables.iloc[:, 0].to_list()):
             json_cims[l] = {}
             parents = self._dyn_str.where(self._dyn_str["To"] == l).dropna()["From"].tolist()
+            # Same order as the columns of p_combs, whatever the order of the edges
+            parents = [p for p in self._variables.iloc[:, 0].to_list() if p in parents]
             for j, comb in enumerate(self._dyn_cims[l].p_combs):
                 comb_key = ""
                 if len(parents) != 0:
-- 
2.43.0


From 7ddec7eae70e5eb8c3464255374263c6e5a94aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 10/48] fix: drop only the last row of a trajectory when its
 index is not unique

Dropping by label removed all of the rows with the label of the last one.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..47ded64 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From b34bcf284b8653c7764046a5b419a4eed9ac7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 11/48] fix: do not overwrite a variable with the shifted copy
 of another one

With variables such as X and XS the shifted column of X replaced the data
of XS.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 47ded64..c25f4d8 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -105,7 +105,10 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        while any(s + suffix in df_samples_list[0].columns for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From 80125aa88317f610a73aa295c7c957cefcf3e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 12/48] fix: import trajectories whose time column is not
 called Time or not the first

The first column was taken for the time whatever time_key says, and any other
name than Time raised a KeyError.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 PyCTBN/PyCTBN/utility/json_importer.py     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index c25f4d8..e7cebdf 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -115,7 +115,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, self._concatenated_samples.columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index 781be4d..6dac6ce 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -145,6 +145,10 @@ class JsonImporter(AbstractImporter):
         dataframe = pd.DataFrame
         smps = raw_data[indx][trajectories_key]
         df_samples_list = [dataframe(sample) for sample in smps]
+        'The time column has to be the first one'
+        for sample_frame in df_samples_list:
+            if self._time_key in sample_frame.columns:
+                sample_frame.insert(0, self._time_key, sample_frame.pop(self._time_key))
         return df_samples_list
 
     def build_sorter(self, sample_frame: pd.DataFrame) -> typing.List:
-- 
2.43.0


From 1980b29fbf5de10de8a38344c899c24a8531b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 13/48] fix: take the columns of the variables from their
 order, not from the frame index

A variables frame that had been sorted or filtered made the estimators read the
columns of other variables.
---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..74dc7a6 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -61,7 +61,7 @@ class SamplePath(object):
 
         self._total_variables_count = len(self._importer.sorter)
         labels = self._importer.variables.iloc[:, 0].to_list()
-        indxs = self._importer.variables.index.to_numpy()
+        indxs = np.arange(len(labels))
         vals = self._importer.variables.iloc[:, 1].to_numpy()
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
-- 
2.43.0


From 7f7e8c0817a8caa87c2da33a24c8cea209ec0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 14/48] fix: refuse an importer whose data have not been
 processed yet

The samples of a new importer are an empty list, which was not recognized when
the variables are already given.
---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 74dc7a6..9fbe730 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -39,6 +39,9 @@ class SamplePath(object):
         if isinstance(self._importer._concatenated_samples, np.ndarray) and\
             self._importer._concatenated_samples.size == 0:
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
+        if isinstance(self._importer._concatenated_samples, list) and\
+            len(self._importer._concatenated_samples) == 0:
+                raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         self._trajectories = None
         self._structure = None
         self._total_variables_count = None
-- 
2.43.0


From 957c7124b95dc5901b705ac8d01c66603e9b902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 15/48] fix: accept every fixed density that gives a whole
 number of edges

Integers (0, 1) raised a TypeError, and densities such as 0.55 were refused when
the product was not exact in floating point.
---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index d10ba9e..a2f1225 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -41,10 +41,10 @@ class NetworkGenerator(object):
         
         if fixed:
             n_edges = density * len(self._labels) * (len(self._labels) - 1)
-            if not float.is_integer(n_edges):
+            if abs(n_edges - round(n_edges)) > 1e-9:
                 raise RuntimeError("Invalid Density")
             else:
-                n_edges = int(n_edges)
+                n_edges = int(round(n_edges))
             edges = [(i, j) for i in self._labels for j in self._labels if i != j]
             random.shuffle(edges)
             edges = edges[:n_edges]
-- 
2.43.0


From 4c8b8262281a9164006c356edc368a1848f79c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 16/48] fix: keep the isolated nodes in the estimated structure

They were missing from the graph, so that adjacency_matrix and spurious_edges
raised an error and save_results did not list all of the nodes.
---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..4f3a6af 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -244,6 +244,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(edges)
 
         return edges
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..9b8df83 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -159,6 +159,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
         'Update the graph'
         self._complete_graph = nx.DiGraph()
+        self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         self._complete_graph.add_edges_from(set_list_edges)
 
         return set_list_edges
-- 
2.43.0


From 0cfe4526f72ac9ce3520765b6b6d0a286bb17c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 17/48] fix: leave the prior structure of the sample path as it
 was

The estimation removed its edges for good, so that spurious_edges and any other
estimator on the same sample path found no prior structure.
---
 .../estimators/structure_constraint_based_estimator.py       | 5 +++++
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 4f3a6af..99f666a 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -222,6 +222,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cpu_count = multiprocessing.cpu_count()
 
         'Remove all the edges from the structure'   
+        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         'Estimate the best parents for each node'
@@ -241,6 +242,10 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                                  self._nodes,
                                                                  total_vars_numb_array)
             
+        'Put the edges back in the structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
         self._complete_graph = nx.DiGraph()
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 9b8df83..253b8f4 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -84,6 +84,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         true_edges = set(map(tuple, true_edges))
 
         'Remove all the edges from the structure'   
+        prior_edges = self._sample_path.structure.edges
         self._sample_path.structure.clean_structure_edges()
 
         estimate_parents = self.estimate_parents
@@ -157,6 +158,10 @@ class StructureScoreBasedEstimator(StructureEstimator):
             print(f"errore: {e}")
 
 
+        'Put the edges back in the structure'
+        for edge in prior_edges:
+            self._sample_path.structure.add_edge(edge)
+
         'Update the graph'
         self._complete_graph = nx.DiGraph()
         self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
-- 
2.43.0


From 161f3bfc4ae189d60b1799145dfed8c14868b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 18/48] fix: return the spurious edges, not the missing ones

spurious_edges subtracted the estimated graph from the real one.
---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..3d14e35 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -142,7 +142,7 @@ class StructureEstimator(object):
         real_graph = nx.DiGraph()
         real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
         real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        return nx.difference(self._complete_graph, real_graph).edges
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
-- 
2.43.0


From ac9b27eabcfc86012663281369eb93c18fa06534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 19/48] fix: let tabu search run on current Python versions

random.sample does not accept sets any more (TypeError since Python 3.11).
---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..ccd856e 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = sample(sorted(current_possible_nodes),k=1)[0]
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From aebb64d4d69578096c016d7fc97c4519b9f364d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 20/48] fix: stop the search when every other node is a known
 parent

Hill climbing raised an IndexError and tabu search waited forever on an empty
queue.
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 4 ++++
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..b228a46 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -91,6 +91,10 @@ class HillClimbing(Optimizer):
         
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
+        'without candidates there is nothing to search'
+        if not other_nodes:
+            return graph.edges
+
         patince_count = 0
         for i in range(self.iterations_number):
             'choose a new random edge'
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index ccd856e..96993d5 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -101,6 +101,10 @@ class TabuSearch(Optimizer):
         'calculate the score for the node without parents'
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
+        'without candidates there is nothing to search'
+        if not other_nodes:
+            return graph.edges
+
 
         'initialize tabu_length and tabu_rules_duration if None'
         if self.tabu_length is None:
-- 
2.43.0


From 0211cd5d1df90d8eb5f7d8d05dfedb29e6415276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 21/48] fix: never replace a known parent when max_parents is
 reached

The search could swap an edge given as prior knowledge for another one, and
raised an IndexError with max_parents = 0.
---
 .../PyCTBN/optimizers/hill_climbing_search.py   | 17 ++++++++++++-----
 PyCTBN/PyCTBN/optimizers/tabu_search.py         | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index b228a46..b61bbfe 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -101,6 +101,7 @@ class HillClimbing(Optimizer):
             current_new_parent = choice(other_nodes)
             current_edge =  (current_new_parent,self.node_id)
             added = False
+            can_add = True
             parent_removed = None 
             
 
@@ -111,10 +112,16 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
-                        graph.remove_edges([parent_removed])
-                graph.add_edges([current_edge])
-                added = True
+                        'the parents given as prior knowledge cannot be removed'
+                        removable_parents = [p for p in parents_list if p not in prior_parents]
+                        if removable_parents:
+                            parent_removed = (choice(removable_parents), self.node_id)
+                            graph.remove_edges([parent_removed])
+                        else:
+                            can_add = False
+                if can_add:
+                    graph.add_edges([current_edge])
+                    added = True
             #print('**************************')
             current_score =  self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
@@ -130,7 +137,7 @@ class HillClimbing(Optimizer):
                     'If a parent was removed, add it again to the graph'
                     if parent_removed is not None:
                         graph.add_edges([parent_removed])
-                else:
+                elif can_add:
                     graph.add_edges([current_edge])
                 'update patience count'
                 patince_count += 1
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 96993d5..c550379 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -134,6 +134,7 @@ class TabuSearch(Optimizer):
             
             current_edge =  (current_new_parent,self.node_id)
             added = False
+            can_add = True
             parent_removed = None 
 
             if graph.has_edge(current_edge):
@@ -143,10 +144,16 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
-                        graph.remove_edges([parent_removed])
-                graph.add_edges([current_edge])
-                added = True
+                        'the parents given as prior knowledge cannot be removed'
+                        removable_parents = [p for p in parents_list if p not in prior_parents]
+                        if removable_parents:
+                            parent_removed = (choice(removable_parents), self.node_id)
+                            graph.remove_edges([parent_removed])
+                        else:
+                            can_add = False
+                if can_add:
+                    graph.add_edges([current_edge])
+                    added = True
            
             current_score =  self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
@@ -164,7 +171,7 @@ class TabuSearch(Optimizer):
                     'If a parent was removed, add it again to the graph'
                     if parent_removed is not None:
                         graph.add_edges([parent_removed])
-                else:
+                elif can_add:
                     graph.add_edges([current_edge])
                 'update patience count'
                 patince_count += 1
-- 
2.43.0


From df36fc3fb4a17c454bdd70f4ae7b7a657c002644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 22/48] fix: test independence whatever is already in the cache

When only the larger of the two parent sets was cached, the graph needed for the
smaller one had not been built (UnboundLocalError).
---
 .../structure_constraint_based_estimator.py      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 99f666a..e9891f1 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -89,17 +89,17 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         cims_filter = sorted_parents != test_parent
 
         p_set.insert(0, test_parent)
+        complete_info.append(test_parent)
+        bool_mask2 = np.isin(self._nodes, complete_info)
+        l2 = list(self._nodes[bool_mask2])
+        indxs2 = self._nodes_indxs[bool_mask2]
+        vals2 = self._nodes_vals[bool_mask2]
+        eds2 = list(itertools.product(p_set, [test_child]))
+        s2 = Structure(l2, indxs2, vals2, eds2, tot_vars_count)
+        g2 = NetworkGraph(s2)
         sofc2 = self._cache.find(set(p_set))
 
         if not sofc2:
-            complete_info.append(test_parent)
-            bool_mask2 = np.isin(self._nodes, complete_info)
-            l2 = list(self._nodes[bool_mask2])
-            indxs2 = self._nodes_indxs[bool_mask2]
-            vals2 = self._nodes_vals[bool_mask2]
-            eds2 = list(itertools.product(p_set, [test_child]))
-            s2 = Structure(l2, indxs2, vals2, eds2, tot_vars_count)
-            g2 = NetworkGraph(s2)
             g2.fast_init(test_child)
             p2 = ParametersEstimator(self._sample_path.trajectories, g2)
             p2.fast_init(test_child)
-- 
2.43.0


From 20995636db3bcd49e6662a8db94659e632517c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 23/48] fix: forget the edges marked by the thumb rule when the
 search ends

The thumb rule marks an edge as not removable on the estimator itself, so
estimating the structure again with the same estimator could give another
result.
---
 PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
index aeb67fc..4a95d9b 100644
--- a/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
+++ b/PyCTBN/PyCTBN/optimizers/constraint_based_optimizer.py
@@ -62,6 +62,9 @@ class ConstraintBasedOptimizer(Optimizer):
             graph.add_edges([(possible_parent,self.node_id)])
 
         
+        'the tests mark the edges they cannot remove: this must not outlive the current search'
+        removable_edges_matrix = self.structure_estimator._removable_edges_matrix.copy()
+
         u = other_nodes
         child_states_numb = self.structure_estimator._sample_path.structure.get_states_number(self.node_id)
         b = 0
@@ -83,5 +86,6 @@ class ConstraintBasedOptimizer(Optimizer):
                 if not removed:
                     parent_indx += 1
             b += 1
+        self.structure_estimator._removable_edges_matrix = removable_edges_matrix
         self.structure_estimator._cache.clear()
         return graph.edges
\ No newline at end of file
-- 
2.43.0


From f7a7c853e5bf5755ee2bb6b661ca8773cb74b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 24/48] fix: a transition never observed does not disable the
 chi test of its state

Its term was 0 / 0, so the whole statistic was NaN and never exceeded the
quantile: dependences between the other transitions went unnoticed.
---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index e9891f1..44d8a6b 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -165,7 +165,8 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         Ks = np.sqrt(r1s / r2s)
         Ls = np.sqrt(r2s / r1s)
         for val in range(0, child_states_numb):
-            Chi = np.sum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
+            'the transitions never observed (0 / 0) say nothing about the other ones'
+            Chi = np.nansum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
                          (M1_no_diag[val] + M2_no_diag[val]))
             if Chi > chi_2_quantile:
                 return False
-- 
2.43.0


From ce9fc4bee78c448c36f9b66529e40e06dfb79f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 25/48] fix: keep the prior edges of the sample path as tuples

They were numpy records, so Structure.contains_edge and remove_edge raised
TypeError when given the tuple their documentation asks for.
---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 9fbe730..21046b0 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -69,7 +69,7 @@ class SamplePath(object):
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-            edges = list(self._importer.structure.to_records(index=False))
+            edges = list(map(tuple, self._importer.structure.to_records(index=False)))
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
 
-- 
2.43.0


From 59cca17ee0799c81ef078d6312196312ba920a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 26/48] fix: save the plot of the estimated structure with
 current matplotlib versions

nx.draw reaches for a private matplotlib function that is no longer there and
raised TypeError; draw_networkx draws the same picture.
---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 3d14e35..ae206a9 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -166,7 +166,7 @@ class StructureEstimator(object):
             #"edge_color":edges_colors,
         }
 
-        nx.draw(self._complete_graph, pos, **options)
+        nx.draw_networkx(self._complete_graph, pos, **options)
         ax = plt.gca()
         ax.margins(0.20)
         plt.axis("off")
-- 
2.43.0


From 1f2932efdcb9c2c4b233d863a9dc096fb307d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 27/48] fix: export integer intensity matrices

---
 PyCTBN/PyCTBN/utility/json_exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index 7e3a9aa..fbf1ac1 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -72,6 +72,6 @@ class JsonExporter(AbstractExporter):
                 else:
                     cim = cim[0].cim
                 
-                json_cims[l][comb_key] = [dict([(str(i), val) for i, val in enumerate(row)]) for row in cim]
+                json_cims[l][comb_key] = [dict([(str(i), float(val)) for i, val in enumerate(row)]) for row in cim]
 
         return json_cims
\ No newline at end of file
-- 
2.43.0


From 176e079fd1c762bb456913bd5448a2da7fc6fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 28/48] fix: a structure does not share its lists of labels and
 edges with its creator

---
 PyCTBN/PyCTBN/structure_graph/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index eb3edda..87c1dc9 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -26,10 +26,10 @@ class Structure(object):
                  edges_list: ty.List, total_variables_number: int):
         """Constructor Method
         """
-        self._nodes_labels_list = nodes_labels_list
+        self._nodes_labels_list = list(nodes_labels_list)
         self._nodes_indexes_arr = nodes_indexes_arr
         self._nodes_vals_arr = nodes_vals_arr
-        self._edges_list = edges_list
+        self._edges_list = list(edges_list)
         self._total_variables_number = total_variables_number
 
     def remove_node(self, node_id: str) -> None:
-- 
2.43.0


From f2491f55eeccbedb062e37d93351bfdf5cdd1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 29/48] fix: removing a node of a graph updates the positions
 of the other nodes

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index a6dc756..6c4d5e5 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -111,6 +111,9 @@ class NetworkGraph(object):
         """
         self._graph.remove_node(node_id)
         self._graph_struct.remove_node(node_id)
+        for pos, node in enumerate(self._graph_struct.nodes_labels):
+            if node in self._graph:
+                self._graph.nodes[node]['pos_indx'] = pos
         self.clear_indexing_filtering_structures()
 
     def clear_indexing_filtering_structures(self) -> None:
-- 
2.43.0


From 0f6c8eee9c16fbd936ccd2719a55234eee16e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 30/48] fix: test independence when only the larger parent set
 is cached

---
 PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 44d8a6b..708fa77 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -97,6 +97,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         eds2 = list(itertools.product(p_set, [test_child]))
         s2 = Structure(l2, indxs2, vals2, eds2, tot_vars_count)
         g2 = NetworkGraph(s2)
+        g2.add_nodes(s2.nodes_labels)
         sofc2 = self._cache.find(set(p_set))
 
         if not sofc2:
-- 
2.43.0


From 259ae1398a8958612b986d16d07692856f24ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 31/48] fix: a failed process of multi_trajectory is reported,
 not a missing trajectory

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 3cca5c7..b221a15 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -188,4 +188,8 @@ class TrajectoryGenerator(object):
         for p in processes:
             p.join()
 
+        # A process that failed has not added its trajectory
+        if any(p.exitcode != 0 for p in processes):
+            raise RuntimeError("A process failed: some of the trajectories are missing!")
+
         return trajectories
\ No newline at end of file
-- 
2.43.0


From 898c7d77654f9e0a855bfe5fe7e3563fc7a5281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 32/48] fix: structures whose labels are in another order are
 not equal

---
 PyCTBN/PyCTBN/structure_graph/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index 87c1dc9..92497b0 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -118,7 +118,7 @@ class Structure(object):
     def __eq__(self, other):
         """Overrides the default implementation"""
         if isinstance(other, Structure):
-            return set(self._nodes_labels_list) == set(other._nodes_labels_list) and \
+            return list(self._nodes_labels_list) == list(other._nodes_labels_list) and \
                    np.array_equal(self._nodes_vals_arr, other._nodes_vals_arr) and \
                    np.array_equal(self._nodes_indexes_arr, other._nodes_indexes_arr) and \
                    self._edges_list == other._edges_list
-- 
2.43.0


From 2312a9548e6af76b71461e4bea748c112bdbc0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 33/48] fix: an interrupted search leaves no statistics and
 marks to the next one

---
 .../estimators/structure_constraint_based_estimator.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 708fa77..cd01622 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -201,7 +201,14 @@ class StructureConstraintBasedEstimator(StructureEstimator):
                                                             node_id = var_id,
                                                             structure_estimator = self,
                                                             tot_vars_count = tot_vars_count)
-        return optimizer_obj.optimize_structure()
+        removable_edges_matrix = self._removable_edges_matrix.copy()
+        try:
+            return optimizer_obj.optimize_structure()
+        except BaseException:
+            'nothing of an interrupted search must reach the next one'
+            self._removable_edges_matrix = removable_edges_matrix
+            self._cache.clear()
+            raise
 
     
     def ctpc_algorithm(self, disable_multiprocessing:bool= False, processes_number:int= None):
-- 
2.43.0


From 28a8327f72106777a3280142bfb9e320adb0ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 34/48] fix: an interrupted estimation puts the prior structure
 back

---
 .../structure_constraint_based_estimator.py   |  3 ++-
 .../PyCTBN/estimators/structure_estimator.py  | 19 +++++++++++++++++++
 .../structure_score_based_estimator.py        |  3 ++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index cd01622..ff7e0d3 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -18,7 +18,7 @@ from ..utility.cache import Cache
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, keep_prior_structure
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from ..optimizers.constraint_based_optimizer import ConstraintBasedOptimizer
@@ -211,6 +211,7 @@ class StructureConstraintBasedEstimator(StructureEstimator):
             raise
 
     
+    @keep_prior_structure
     def ctpc_algorithm(self, disable_multiprocessing:bool= False, processes_number:int= None):
         """Compute the CTPC algorithm over the entire net.
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index ae206a9..b313a0a 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -2,6 +2,7 @@
 # License: MIT License
 
 
+import functools
 import itertools
 import json
 import typing
@@ -23,6 +24,24 @@ from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 
 
+def keep_prior_structure(estimation):
+    """Decorator of the methods that clear the edges of the sample path's structure while they run:
+    if they are interrupted, the edges are put back in the structure.
+    """
+    @functools.wraps(estimation)
+    def wrapper(self, *args, **kwargs):
+        structure = self._sample_path.structure
+        prior_edges = structure.edges
+        try:
+            return estimation(self, *args, **kwargs)
+        except BaseException:
+            structure.clean_structure_edges()
+            for edge in prior_edges:
+                structure.add_edge(edge)
+            raise
+    return wrapper
+
+
 class StructureEstimator(object):
     """Has the task of estimating the network structure given the trajectories in ``samplepath``.
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 253b8f4..c433046 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -19,7 +19,7 @@ import copy
 from ..structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
 from ..structure_graph.network_graph import NetworkGraph
 from .parameters_estimator import ParametersEstimator
-from .structure_estimator import StructureEstimator
+from .structure_estimator import StructureEstimator, keep_prior_structure
 from ..structure_graph.sample_path import SamplePath
 from ..structure_graph.structure import Structure
 from .fam_score_calculator import FamScoreCalculator
@@ -55,6 +55,7 @@ class StructureScoreBasedEstimator(StructureEstimator):
         self.alpha_xu=alpha_xu
 
 
+    @keep_prior_structure
     def estimate_structure(self, max_parents:int = None, iterations_number:int= 40,
                          patience:int = None, tabu_length:int = None, tabu_rules_duration:int = None,
                          optimizer: str = 'tabu', disable_multiprocessing:bool= False, processes_number:int= None):
-- 
2.43.0


From 2b9354cca6efb09c392043f63c62674d44415615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 35/48] fix: sample from imported networks whatever the key of
 the variable names

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index b221a15..28b7139 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -62,8 +62,8 @@ class TrajectoryGenerator(object):
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
                 if importer is not None:
-                    sof = SetOfCims(node_id = v, parents_states_number = [self._importer._df_variables.where(self._importer._df_variables["Name"] == p)["Value"] for p in self._parents[v]], 
-                        node_states_number = self._importer._df_variables.where(self._importer._df_variables["Name"] == v)["Value"], p_combs = np.array(p_combs), cims = v_cims)
+                    sof = SetOfCims(node_id = v, parents_states_number = [self._importer._df_variables.where(self._importer._df_variables.iloc[:, 0] == p).iloc[:, 1] for p in self._parents[v]], 
+                        node_states_number = self._importer._df_variables.where(self._importer._df_variables.iloc[:, 0] == v).iloc[:, 1], p_combs = np.array(p_combs), cims = v_cims)
                 else:
                     sof = SetOfCims(node_id = v, parents_states_number = [variables.where(variables["Name"] == p)["Value"] for p in self._parents[v]], 
                         node_states_number = variables.where(variables["Name"] == v)["Value"], p_combs = np.array(p_combs), cims = v_cims)
-- 
2.43.0


From e695c2eec4c8f2d469fcae3f240ca2e83410c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 36/48] fix: variables_key tells which column of the variables
 holds the names

---
 PyCTBN/PyCTBN/utility/json_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_importer.py b/PyCTBN/PyCTBN/utility/json_importer.py
index 6dac6ce..aa4f52a 100644
--- a/PyCTBN/PyCTBN/utility/json_importer.py
+++ b/PyCTBN/PyCTBN/utility/json_importer.py
@@ -98,7 +98,11 @@ class JsonImporter(AbstractImporter):
         :return: Datframe containg the variables simbolic labels and their cardinalities
         :rtype: pandas.Dataframe
         """
-        return self.one_level_normalizing(raw_data, self._array_indx, self._variables_label)
+        variables = self.one_level_normalizing(raw_data, self._array_indx, self._variables_label)
+        'The column of the names has to be the first one'
+        if self._variables_key in variables.columns:
+            variables.insert(0, self._variables_key, variables.pop(self._variables_key))
+        return variables
 
     def read_json_file(self) -> typing.List:
         """Reads the JSON file in the path self.filePath.
-- 
2.43.0


From 91949f82c3866b8df23979e76277260e22821075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 37/48] fix: read the prior edges by the names of their
 columns, not by their position

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 21046b0..3e706be 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -69,7 +69,10 @@ class SamplePath(object):
         if self._importer.structure is None or self._importer.structure.empty:
             edges = []
         else:
-            edges = list(map(tuple, self._importer.structure.to_records(index=False)))
+            structure = self._importer.structure
+            if {"From", "To"}.issubset(structure.columns):
+                structure = structure[["From", "To"]]
+            edges = list(map(tuple, structure.to_records(index=False)))
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
 
-- 
2.43.0


From c3448e4deed03afe3a7fd15e106e6a074be08da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:27 +0000
Subject: [PATCH 38/48] fix: a network with a state that cannot be left could
 not be sampled

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 28b7139..2ecd36f 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -105,12 +105,13 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = 1 / param)
+                    # A state that cannot be left lasts forever
+                    time[i] = t + random.exponential(scale = 1 / param) if param != 0 else np.inf
         
             next = time.argmin()
             t = time[next]
 
-            if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):
+            if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end) or np.isinf(t):
                 sigma.loc[len(sigma) - 1, self._vnames] = -1
                 self._generated_trajectory = sigma
                 return sigma
-- 
2.43.0


From 560af354184a78b6354d7e400caefed5f4295ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:27 +0000
Subject: [PATCH 39/48] fix: the score of a variable with a single state raised
 ZeroDivisionError

---
 PyCTBN/PyCTBN/estimators/fam_score_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/fam_score_calculator.py b/PyCTBN/PyCTBN/estimators/fam_score_calculator.py
index e3123fe..8bb60d9 100644
--- a/PyCTBN/PyCTBN/estimators/fam_score_calculator.py
+++ b/PyCTBN/PyCTBN/estimators/fam_score_calculator.py
@@ -257,7 +257,7 @@ class FamScoreCalculator:
         """
 
         'calculate alpha_xxu as a uniform distribution'                                
-        alpha_xxu = alpha_xu /(len(cims[0]._state_residence_times) - 1)
+        alpha_xxu = alpha_xu / max(len(cims[0]._state_residence_times) - 1, 1)
 
         return self.marginal_likelihood_q(cims,
                                     tau_xu,
-- 
2.43.0


From 5f9fcd39605c7c5c9150bb83d7dfda7915e24a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:53 +0000
Subject: [PATCH 40/48] fix: tabu search with a tabu list of length 0 or rules
 of duration 0 hung or failed

---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index c550379..72c78f4 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -177,17 +177,18 @@ class TabuSearch(Optimizer):
                 patince_count += 1
                 
             
-            if tabu_queue.qsize() >= self.tabu_length:
+            if self.tabu_length > 0:
+                if tabu_queue.qsize() >= self.tabu_length:
                     current_removed = tabu_queue.get()
                     tabu_set.remove(current_removed)
-            'Add the node on the tabu list'
-            tabu_queue.put(current_new_parent)
-            tabu_set.add(current_new_parent)
+                'Add the node on the tabu list'
+                tabu_queue.put(current_new_parent)
+                tabu_set.add(current_new_parent)
 
             tabu_count += 1
 
             'Every tabu_rules_duration step remove an item from the tabu list '
-            if tabu_count % self.tabu_rules_duration == 0:
+            if tabu_count >= self.tabu_rules_duration:
                 if tabu_queue.qsize() > 0:
                     current_removed = tabu_queue.get()
                     tabu_set.remove(current_removed)
-- 
2.43.0


From 2144e994f952ecb236a7023cd90cca03b24d8ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:28 +0000
Subject: [PATCH 41/48] fix: exported trajectories lost all but ten decimals of
 their times

---
 PyCTBN/PyCTBN/utility/json_exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/json_exporter.py b/PyCTBN/PyCTBN/utility/json_exporter.py
index fbf1ac1..df30e74 100644
--- a/PyCTBN/PyCTBN/utility/json_exporter.py
+++ b/PyCTBN/PyCTBN/utility/json_exporter.py
@@ -37,7 +37,7 @@ class JsonExporter(AbstractExporter):
             "dyn.str": json.loads(self._dyn_str.to_json(orient="records")),
             "variables": json.loads(self._variables.to_json(orient="records")),
             "dyn.cims": self.cims_to_json(),
-            "samples": [json.loads(trajectory.to_json(orient="records")) for trajectory in self._trajectories]
+            "samples": [trajectory.to_dict(orient="records") for trajectory in self._trajectories]
         }]
 
         path = os.getcwd()
-- 
2.43.0


From 7ed9f943f3d8118c21204ab4a786cf1b8b593332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 42/48] fix: building trajectories from an importer whose
 samples were used up gave an empty set of trajectories

---
 PyCTBN/PyCTBN/structure_graph/sample_path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index 3e706be..6199bf4 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -50,6 +50,8 @@ class SamplePath(object):
         """Builds the Trajectory object that will contain all the trajectories.
         Clears all the unused dataframes in ``_importer`` Object
         """
+        if isinstance(self._importer.concatenated_samples, pd.DataFrame) and self._importer.concatenated_samples.empty:
+            raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         self._trajectories = \
             Trajectory(self._importer.build_list_of_samples_array(self._importer.concatenated_samples),
                 len(self._importer.sorter) + 1)
-- 
2.43.0


From 0c78b21e8375ffbc31f1e32d7bd162558517ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:16 +0000
Subject: [PATCH 43/48] fix: score-based searches took known edges from the
 wrong variables after remove_node

---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 6 +++---
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index b61bbfe..bdf7a63 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -73,9 +73,9 @@ class HillClimbing(Optimizer):
         prior_parents = set()
 
         'Add the edges from prior knowledge'
-        for i in range(len(self.structure_estimator._removable_edges_matrix)):
-            if not self.structure_estimator._removable_edges_matrix[i][node_index]:
-                parent_id= self.structure_estimator._sample_path._structure.get_node_id(i)
+        for parent_id in self.structure_estimator._sample_path._structure.nodes_labels:
+            parent_index = self.structure_estimator._sample_path._structure.get_node_indx(parent_id)
+            if not self.structure_estimator._removable_edges_matrix[parent_index][node_index]:
                 prior_parents.add(parent_id)
 
                 'Add the node to the starting structure'
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 72c78f4..951d2b2 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -82,9 +82,9 @@ class TabuSearch(Optimizer):
         prior_parents = set()
 
         'Add the edges from prior knowledge'
-        for i in range(len(self.structure_estimator._removable_edges_matrix)):
-            if not self.structure_estimator._removable_edges_matrix[i][node_index]:
-                parent_id= self.structure_estimator._sample_path._structure.get_node_id(i)
+        for parent_id in self.structure_estimator._sample_path._structure.nodes_labels:
+            parent_index = self.structure_estimator._sample_path._structure.get_node_indx(parent_id)
+            if not self.structure_estimator._removable_edges_matrix[parent_index][node_index]:
                 prior_parents.add(parent_id)
 
                 'Add the node to the starting structure'
-- 
2.43.0


From 2d74e06c23a7d245b40b0b616c3e86762a944225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:18 +0000
Subject: [PATCH 44/48] fix: NetworkGraph.add_nodes gave the nodes of a shorter
 or reordered list the properties of others

---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 6c4d5e5..b156758 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -81,10 +81,9 @@ class NetworkGraph(object):
         """
         nodes_indxs = self._graph_struct.nodes_indexes
         nodes_vals = self._graph_struct.nodes_values
-        pos = 0
-        for id, node_indx, node_val in zip(list_of_nodes, nodes_indxs, nodes_vals):
-            self._graph.add_node(id, indx=node_indx, val=node_val, pos_indx=pos)
-            pos += 1
+        for id in list_of_nodes:
+            pos = self._graph_struct.get_positional_node_indx(id)
+            self._graph.add_node(id, indx=nodes_indxs[pos], val=nodes_vals[pos], pos_indx=pos)
 
     def has_edge(self,edge:tuple)-> bool:
         """
-- 
2.43.0


From 1f405fb385c6e07f424e7896988416e998f0aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 45/48] fix: Structure.get_node_id took the index of a node for
 its position

---
 PyCTBN/PyCTBN/structure_graph/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/structure.py b/PyCTBN/PyCTBN/structure_graph/structure.py
index 92497b0..962b168 100644
--- a/PyCTBN/PyCTBN/structure_graph/structure.py
+++ b/PyCTBN/PyCTBN/structure_graph/structure.py
@@ -71,7 +71,7 @@ class Structure(object):
         :return: the node label
         :rtype: string
         """
-        return self._nodes_labels_list[node_indx]
+        return self._nodes_labels_list[list(self._nodes_indexes_arr).index(node_indx)]
 
     def clean_structure_edges(self):
         self._edges_list = list()
-- 
2.43.0


From b716591a831fd136c8109acab3e1fee6651f1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:22 +0000
Subject: [PATCH 46/48] fix: parallel sampling raises when a process ends
 without its trajectory, also with exit code 0

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 2ecd36f..d729670 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -189,8 +189,8 @@ class TrajectoryGenerator(object):
         for p in processes:
             p.join()
 
-        # A process that failed has not added its trajectory
-        if any(p.exitcode != 0 for p in processes):
+        # A process that failed, or ended too early, has not added its trajectory
+        if any(p.exitcode != 0 for p in processes) or len(trajectories) != len(processes):
             raise RuntimeError("A process failed: some of the trajectories are missing!")
 
         return trajectories
\ No newline at end of file
-- 
2.43.0


From c99c96b34dabab20139b887d54778cc496e72c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:37 +0000
Subject: [PATCH 47/48] fix: clear the figure also when the plot of the
 structure cannot be saved

---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index b313a0a..43f3ad6 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -189,8 +189,10 @@ class StructureEstimator(object):
         ax = plt.gca()
         ax.margins(0.20)
         plt.axis("off")
-        plt.savefig(file_path)
-        plt.clf()
+        try:
+            plt.savefig(file_path)
+        finally:
+            plt.clf()
         print("Estimated Structure Plot Saved At: ", os.path.abspath(file_path))
 
 
-- 
2.43.0


From db7c40e8eafe90ce0bed14aa3c1499654b62672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:38 +0000
Subject: [PATCH 48/48] fix: the search of one node has the documented defaults

---
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index c433046..4809023 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -172,8 +172,8 @@ class StructureScoreBasedEstimator(StructureEstimator):
     
 
     def estimate_parents(self,node_id:str, max_parents:int = None, iterations_number:int= 40,
-                            patience:int = 10, tabu_length:int = None, tabu_rules_duration:int=5, 
-                            optimizer:str = 'hill' ):
+                            patience:int = None, tabu_length:int = None, tabu_rules_duration:int = None,
+                            optimizer:str = 'tabu' ):
         """
         Use the FamScore of a node in order to find the best parent nodes
         
-- 
2.43.0

