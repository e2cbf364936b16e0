From a2a569e68c20f8472edc119b23a7e8f0ba66ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 01/39] fix: region_with_zeroes uses the bounds of the given
 region

---
 spta/region/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/spatial.py b/spta/region/spatial.py
index f17654a..c93862a 100644
--- a/spta/region/spatial.py
+++ b/spta/region/spatial.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from . import base
-from . import Region, reshape_1d_to_2d
+from . import reshape_1d_to_2d
 
 from spta.util import arrays as arrays_util
 
@@ -206,7 +206,7 @@ class SpatialRegion(DomainRegion):
         Creates a spatial region filled with zeroes, with the dimensions given by the region.
         Notice that indices will start at (0, 0)
         '''
-        (x_len, y_len) = (Region.x2 - Region.x1, Region.y2 - Region.y1)
+        (x_len, y_len) = (region.x2 - region.x1, region.y2 - region.y1)
         zero_array = np.zeros((x_len, y_len))
         return SpatialRegion(zero_array)
 
-- 
2.43.0


From 6182fc46b4ed199bab0cf94053ed8615f5b00ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 02/39] fix: series_at(None) returns a missing series instead
 of failing

---
 spta/region/temporal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index c98e948..159ad10 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -53,7 +53,7 @@ class SpatioTemporalRegion(DomainRegion):
     def series_at(self, point):
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         return self.numpy_dataset[:, point.x, point.y]
 
@@ -360,7 +360,7 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         '''
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         # self.logger.debug('SpatioTemporalCluster {} series_at {}'.format(self.label, point))
         if self.partition.is_member(point, self.cluster_index):
-- 
2.43.0


From a159344fe8c0bb9247793254d7440c077bb35aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 03/39] fix: get_centroid calls the existing centroid
 calculation

---
 spta/region/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 159ad10..3c4e284 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -109,7 +109,7 @@ class SpatioTemporalRegion(DomainRegion):
             # calculate the centroid, ugly but works...
             from . import centroid
             centroid_calc = centroid.CalculateCentroid(distance_measure)
-            self.centroid, _ = centroid_calc.find_centroid_and_cost(self)
+            self.centroid, _ = centroid_calc.find_centroid_and_distances(self)
             return self.centroid
 
     def has_centroid(self):
-- 
2.43.0


From 8149a87218429739338c96de168a795607b74aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 04/39] fix: default cluster_len counts the members of the
 cluster

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7db158a..e946dd8 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -109,7 +109,7 @@ class PartitionRegion(BaseRegion):
         members = 0
         for point in self:
             if self.is_member(point, cluster_index):
-                members += 0
+                members += 1
         return members
 
     def clone(self):
-- 
2.43.0


From a17bb97bad53b4c55f374614f8ea21b4051cb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 05/39] fix: merge_clusters_2d orders the clusters before
 merging them

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index e946dd8..9df9900 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -302,7 +302,7 @@ class PartitionRegionCrisp(PartitionRegion):
             assert cluster.y_len == self.y_len
 
         # order clusters by their index
-        sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
+        spatial_clusters = sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
 
         # sanity checks: there are k clusters, and all indices are present
         indices = [
-- 
2.43.0


From 440a4c15087698bffcc3a2ef87a2035618eb1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 06/39] fix: saving a scaled region uses the metadata names of
 the scale files

---
 spta/region/scaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b815b9b..c967c43 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -209,12 +209,12 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         super(SpatioTemporalScaled, self).save()
 
         # save min
-        min_filename = self.region_metadata.scale_min_filename
+        min_filename = self.region_metadata.scaled_min_filename
         np.save(min_filename, self.scale_min.numpy_dataset)
         self.logger.info('Saved scale_min to {}'.format(min_filename))
 
         # save max
-        max_filename = self.region_metadata.scale_max_filename
+        max_filename = self.region_metadata.scaled_max_filename
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
-- 
2.43.0


From 31380ceaf7bee7477cb5be9d0f8cb46a6461dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 07/39] fix: saving a scaled region does not require metadata
 in the decorated region

---
 spta/region/scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index c967c43..d2ab648 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -5,7 +5,7 @@ This module handles scale and descale of spatio-temporal regions.
 import numpy as np
 
 from .function import FunctionRegionScalarSame, FunctionRegionSeries, FunctionRegionSeriesSame
-from .temporal import SpatioTemporalDecorator
+from .temporal import SpatioTemporalDecorator, SpatioTemporalRegion
 
 
 class ScaleFunction(FunctionRegionSeriesSame):
@@ -205,8 +205,8 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         Requires the metadata!
         '''
 
-        # save dataset
-        super(SpatioTemporalScaled, self).save()
+        # save dataset: use the metadata of this region, the decorated region does not have it
+        SpatioTemporalRegion.save(self)
 
         # save min
         min_filename = self.region_metadata.scaled_min_filename
-- 
2.43.0


From db190ff7185a3c3450637b823d6b99c8c8f2ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 08/39] fix: spatial DTW adds the weights to every matrix it
 loads

---
 spta/distance/dtw.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 81908a7..2410324 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -194,9 +194,13 @@ class DistanceBySpatialDTW(DistanceByDTW):
         '''
 
         # read normally
-        super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+        loaded = super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename,
+                                                                           expected_region)
+        if loaded is None:
+            return None
 
-        # add the weight
+        # the matrix that was just read does not have the weights yet, add them
+        self.weighted = False
         return self.weight_distance_matrix(expected_region)
 
 
-- 
2.43.0


From b25fd8f0f2d90ad241fe7f9138b8a6ca71ffa73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 09/39] fix: spatial DTW has its own identifier instead of
 sharing the results of DTW

---
 spta/distance/dtw.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 2410324..f3ea865 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -203,6 +203,12 @@ class DistanceBySpatialDTW(DistanceByDTW):
         self.weighted = False
         return self.weight_distance_matrix(expected_region)
 
+    def __repr__(self):
+        '''
+        Different from DTW (and from other weights), the distances are not the same
+        '''
+        return 'dtw_spatial{}'.format(self.weight)
+
 
 if __name__ == '__main__':
     from spta.util import log as log_util
-- 
2.43.0


From de38491e3c7c6c15e40f5828d7bcfc497378ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 10/39] fix: RMSE has a stable identifier for its result
 directories

---
 spta/distance/rmse.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spta/distance/rmse.py b/spta/distance/rmse.py
index 242e007..a01fb4b 100644
--- a/spta/distance/rmse.py
+++ b/spta/distance/rmse.py
@@ -29,3 +29,12 @@ class DistanceByRMSE(DistanceBetweenSeries):
         Note that the errors of each series can be added using Root Mean Squared.
         '''
         return arrays_util.root_mean_squared(distances_for_point)
+
+    def __repr__(self):
+        '''
+        Useful to identify this distance_measure
+        '''
+        return 'rmse'
+
+    def __str__(self):
+        return repr(self)
-- 
2.43.0


From 6e708d8f495413ae53a326618b9b528ba871f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 11/39] fix: missing distance matrix file is handled when
 asking for distances to a point

---
 spta/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index 24c33c5..c2230be 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -122,7 +122,8 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
             try:
                 # can we load a saved distance matrix?
                 # this requires the metadata of the region
-                self.load_distance_matrix_md(spt_region.region_metadata)
+                if self.load_distance_matrix_md(spt_region.region_metadata) is None:
+                    raise ValueError('No saved distance matrix available!')
 
             except Exception as err:
 
-- 
2.43.0


From 533cd598be70b8af23e08701e69a9aad53b7a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 12/39] fix: partitions are saved in and loaded from the
 requested pickle home

---
 spta/clustering/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 243fa1a..9be71cb 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -210,7 +210,7 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Saves a partition as a pickle objct, using its to_pickle(path) method. The path is
         calculated by the clustering metadata.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
 
         # the partition can save itself
         partition.to_pickle(pickle_full_path)
@@ -241,19 +241,19 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Should be successful if save_partition() was called before, will raise an exception
         if no saved partition is found.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
         partition = PartitionRegion.try_from_pickle(pickle_full_path)
 
         self.logger.info('Loaded previously calculated partition from {}'.format(pickle_full_path))
         return partition
 
-    def pickle_full_path(self, region_metadata):
+    def pickle_full_path(self, region_metadata, pickle_home='pickle'):
         '''
         Calculates the path for persisting partition objects via pickle. The path is calculated by
         the clustering metadata.
         '''
         # path to store/load pickle objects given metadata
-        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure)
+        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure, pickle_home)
 
         # use a fixed name, assuming that the metadata uniquely identifies the created partition...
         return os.path.join(pickle_dir, self.partition_pickle_filename)
-- 
2.43.0


From b550395e92ff3b10e1fe293b18d1999d8f666fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 13/39] fix: clustering metadata with different seeds, modes or
 initial medoids are not equal

---
 spta/clustering/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 9be71cb..2d1aaa5 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -60,10 +60,11 @@ class ClusteringMetadata():
         return '{}: k={}'.format(self.name.capitalize(), self.k)
 
     def __eq__(self, other):
-        return self.name == other.name and self.k == other.k
+        # the representation includes all the parameters that identify the clustering, e.g. the seed
+        return isinstance(other, ClusteringMetadata) and repr(self) == repr(other)
 
     def __hash__(self):
-        return hash((self.name, self.k))
+        return hash(repr(self))
 
 
 class ClusteringAlgorithm(log_util.LoggerMixin):
-- 
2.43.0


From 94c302f8563f1f45f34b4e0ee621527bb882a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 14/39] fix: the elbow of each seed uses only the costs of that
 seed

---
 spta/clustering/suite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index 777eab8..ae26cef 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -394,7 +394,8 @@ class FindSuiteElbow(log_util.LoggerMixin):
             for metadata in ordered_metadata_instances:
                 costs_by_metadata_for_this_seed[metadata] = costs_by_metadata[metadata]
 
-            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata, ordered_metadata_instances)
+            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata_for_this_seed,
+                                                                   ordered_metadata_instances)
             elbows_by_seed[seed] = elbow_for_this_seed
 
         return elbows_by_seed
-- 
2.43.0


From 94b5a46cb4c342ec1431e814c7d4e77455b50a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 15/39] fix: k-medoids assigns each medoid to its own cluster
 when there are equal series

---
 spta/kmedoids/kmedoids.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 13d4198..bd4ff80 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -83,6 +83,10 @@ def _get_cost(X, medoids, distance_measure):
     # this effectively represents the membership of each point to a cluster
     labels = np.argmin(dist_mat, axis=1)
 
+    # each medoid belongs to its own cluster, even if its distance to another medoid is also zero
+    for j, medoid_j in enumerate(medoids):
+        labels[medoid_j.index] = j
+
     # calculate intra-cluster cost for each cluster
     costs = np.zeros(k)
     for i in range(0, k):
-- 
2.43.0


From fd9b68afaf566d2fa6dd7b4770f0988b3701b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 16/39] fix: initial medoids can be given as an array

---
 spta/kmedoids/kmedoids.py       | 2 +-
 spta/kmedoids/kmedoids_fuzzy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index bd4ff80..887a550 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -30,7 +30,7 @@ KmedoidsResult = namedtuple('KmedoidsResult', ('k', 'random_seed', 'mode', 'medo
 def choose_initial_medoids(X, k, random_seed, initial_indices=None):
     seed(random_seed)
 
-    if not initial_indices:
+    if initial_indices is None or len(initial_indices) == 0:
         initial_indices = choice(len(X), size=k, replace=False)
 
     logger.info('Initial medoids indices: {}'.format(str(initial_indices)))
diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 4249091..c1a1b85 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -45,7 +45,7 @@ KmedoidsFuzzyResult = namedtuple('KmedoidsFuzzyResult', ('k', 'm', 'random_seed'
 def choose_initial_medoids(X, k, random_seed, initial_indices=None):
     seed(random_seed)
 
-    if not initial_indices:
+    if initial_indices is None or len(initial_indices) == 0:
         initial_indices = choice(len(X), size=k, replace=False)
 
     logger.info('Initial medoids indices: {}'.format(str(initial_indices)))
-- 
2.43.0


From 5703b7aea52b377b3b4d909cb87b6341013a9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 17/39] fix: fuzzy k-medoids returns a result when the initial
 medoids are already optimal

---
 spta/kmedoids/kmedoids_fuzzy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index c1a1b85..7cca362 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -167,8 +167,7 @@ def run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids=None, random_s
     medoids = choose_initial_medoids(X, k, random_seed, initial_medoids)
 
     # assign initial members
-    labels, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
-                                                               tol)
+    uij, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure, tol)
     cc, SWAPPED = 0, True
 
     while True:
-- 
2.43.0


From 9d0689a4f1d0f6bc902ad8e9afc19f0dda9662e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 18/39] fix: training again discards the forecasts of the
 previous models

---
 spta/model/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 2748630..386b515 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -53,6 +53,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         (self.training_region, self.test_region) = splitter.split(spt_region)
         self.test_len = test_len
 
+        # forecasts of previously trained models are not valid anymore
+        self.forecast_region_each = None
+
         # prepare the error analysis
         self.error_analysis = ErrorAnalysis(self.test_region, self.training_region,
                                             self.parallel_workers)
-- 
2.43.0


From 413f2f9371d45b0b9da3f2476f5d4b0ebc904bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 19/39] fix: the optional training region is not descaled when
 it is missing

---
 spta/model/error.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index ffed9b7..ae71f39 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -104,7 +104,10 @@ class MeasureForecastingError(FunctionRegionScalar):
         if observation_region.has_scaling():
             self.logger.debug('About to descale observation and training regions')
             self.observation_region = observation_region.descale()
-            self.training_region = training_region.descale()
+            # the training region is optional
+            self.training_region = None
+            if training_region is not None:
+                self.training_region = training_region.descale()
         else:
             self.logger.debug('MeasureForecastingError - No scaling detected')
             self.observation_region = observation_region
-- 
2.43.0


From 98934ffd4c9f18ef07d0a5ae020312ce2916cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 20/39] fix: k-NN parameters with different distance measures
 have different names

---
 spta/model/knn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spta/model/knn.py b/spta/model/knn.py
index 4cb5f04..48bb63a 100644
--- a/spta/model/knn.py
+++ b/spta/model/knn.py
@@ -24,9 +24,9 @@ class KNNParams(namedtuple('KNNParams', 'k distance_measure')):
         # https://stackoverflow.com/a/7914212/3175179
         '''
 
-        # assuming DTW, could be RMSE or some other euclidean distance
-        as_str = 'knn-k{}-dtw'
-        return as_str.format(self.k)
+        # the distance measure changes the model, so it is part of the representation
+        as_str = 'knn-k{}-{!r}'
+        return as_str.format(self.k, self.distance_measure)
 
     def __str__(self):
         return super(KNNParams, self).__repr__()
-- 
2.43.0


From 09c7045277d37fb44edec0081926f575b0ca98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 21/39] fix: solvers with different test lengths do not share
 the models of the whole dataset

---
 spta/solver/metadata.py | 7 ++++---
 spta/solver/model.py    | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/spta/solver/metadata.py b/spta/solver/metadata.py
index eb922f4..e397e62 100644
--- a/spta/solver/metadata.py
+++ b/spta/solver/metadata.py
@@ -54,13 +54,14 @@ class SolverMetadataBasic(object):
         given by test_len, this is reflected in the filename. If a model region is later retrieved,
         for forecasting, an adequate test_len has to be specified by the user.
 
-        If a model region was trained with the full dataset, then use with_test_samples=False,
-        the filename will not include test_len.
+        If a model region was trained with the full dataset, then use with_test_samples=False.
+        The filename still includes test_len, because these models are the result of refitting the
+        models that were obtained with test_len (e.g. same ARIMA order).
         '''
         test_len_str = 'tp{}'.format(self.test_len)
         if not with_test_samples:
             # assume that the models are using the whole dataset (no test subset)
-            test_len_str = 'whole'
+            test_len_str = 'whole__{}'.format(test_len_str)
 
         return '{}__{!r}__{}.pkl'.format(name_prefix, self.model_params, test_len_str)
 
diff --git a/spta/solver/model.py b/spta/solver/model.py
index 9c7f6d3..98cb024 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -238,7 +238,7 @@ class SolverPickler(log_util.LoggerMixin):
                     |- errors__<model_params>__tp<tp>__<error>.pkl
                     |- partition_<clustering_metadata>.pkl
                     |- models-at-medoids-<model_params>__tp<tp>.pkl
-                    |- models-at-medoids-<model_params>__whole.pkl
+                    |- models-at-medoids-<model_params>__whole__tp<tp>.pkl
     '''
 
     def __init__(self, solver_metadata):
@@ -369,8 +369,8 @@ class SolverPickler(log_util.LoggerMixin):
     def model_whole_pickle_path(self):
         '''
         Full path of the pickle object of the model region based on the whole dataset
-        (as opposed to just the training dataset); given by the region, clustering, distance and
-        model parameters.
+        (as opposed to just the training dataset); given by the region, clustering, distance,
+        model parameters and number of test samples used.
         '''
         solver_pickle_dir = self.metadata.pickle_dir()
         model_filename = self.metadata.trained_model_region_filename('models-at-medoids',
-- 
2.43.0


From 60f60e03d77c4c55474ead59a5325f0592958e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 22/39] fix: saved partitions without medoids are not used when
 medoids are requested

---
 spta/clustering/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 2d1aaa5..e0c912e 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -104,6 +104,10 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
             the_partition = self.try_load_previous_partition(spt_region.region_metadata,
                                                              pickle_home)
 
+            # a partition that was saved without medoids cannot be used if they are requested
+            if with_medoids and not hasattr(the_partition, 'medoids'):
+                the_partition = None
+
             # flag to avoid saving a loaded partition
             if the_partition is not None:
                 loaded_from_pickle = True
-- 
2.43.0


From 4b268dac4ea4fce07a85621c84bb02e9c83dbc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 23/39] fix: random training points avoid the medoids of
 regions with an offset

---
 spta/classifier/train_input.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 621ea99..f4d5c14 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -621,10 +621,15 @@ def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
     for clustering_repr, medoids in suite_result.items():
         unique_medoid_points.update(medoids)
 
+    # the medoids are in absolute coordinates, remove the offset of the region if there is one
+    x_offset, y_offset = 0, 0
+    if getattr(spt_region, 'region_metadata', None) is not None:
+        x_offset, y_offset = spt_region.region_metadata.region.x1, spt_region.region_metadata.region.y1
+
     # to get the indices, we need the region
     y_len = spt_region.y_len
     unique_medoid_indices = [
-        unique_medoid_point.x * y_len + unique_medoid_point.y
+        (unique_medoid_point.x - x_offset) * y_len + (unique_medoid_point.y - y_offset)
         for unique_medoid_point in unique_medoid_points
     ]
 
-- 
2.43.0


From cd6d361ee0dc177b12f1df16d00403ead79997dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 24/39] fix: results of the classifier solver use the requested
 output home

---
 spta/classifier/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 99bacaf..5ea257d 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -261,7 +261,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                       error_subregion=error_region_each,
                                                       prediction_region=prediction_region,
                                                       spt_region=self.spt_region,
-                                                      output_home='outputs',
+                                                      output_home=output_home,
                                                       is_out_of_sample=False)
         prediction_result = result_builder.from_classifier(self.clustering_suite, classifier_labels_by_point).build()
         return prediction_result
-- 
2.43.0


From b5695f54a0654d27b262a6921530911c938784b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 25/39] fix: the classifier solver uses the out-of-sample
 region of each query

---
 spta/classifier/model.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 5ea257d..a5c85a8 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -77,10 +77,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
         # cache solvers so that we don't reconstruct them every single time
         self.solvers = {}
 
-    def prepare(self, out_of_sample_region):
+    def prepare(self):
         '''
         Here we make sure that the classifier is loaded so that it can answer with a label.
-        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
         '''
         # need actual code...
         # self.classifier = RandomClassifier()
@@ -89,6 +88,16 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         self.spt_region = self.region_metadata.create_instance()
 
+        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
+                                                 model_params=self.model_params,
+                                                 test_len=self.test_len,
+                                                 error_type=self.error_type)
+        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
+
+    def prepare_target_region(self, out_of_sample_region):
+        '''
+        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
+        '''
         if out_of_sample_region is None:
             # no out-of-sample target specified, us the same region
             self.target_spt_region = self.spt_region
@@ -96,12 +105,6 @@ class SolverFromClassifier(log_util.LoggerMixin):
             # use a different, 'out-of-sample' region
             self.target_spt_region = out_of_sample_region.create_instance()
 
-        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
-                                                 model_params=self.model_params,
-                                                 test_len=self.test_len,
-                                                 error_type=self.error_type)
-        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
-
     def predict(self, prediction_region, tp, out_of_sample_region=None, output_home='outputs'):
         '''
         Ask the solver to create a forecast for the specified region using the specified number
@@ -117,7 +120,10 @@ class SolverFromClassifier(log_util.LoggerMixin):
         '''
 
         if self.classifier is None:
-            self.prepare(out_of_sample_region)
+            self.prepare()
+
+        # the target depends on the query, it cannot be reused from a previous query
+        self.prepare_target_region(out_of_sample_region)
         assert self.classifier is not None
         assert self.target_spt_region is not None
 
-- 
2.43.0


From acffada7bce97274025eec9b5d29b11a226e32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 26/39] fix: descaling a cluster of a scaled region drops the
 scaling

---
 spta/region/temporal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 3c4e284..e255891 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -354,6 +354,16 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         subset_cluster.region_metadata = None
         return subset_cluster
 
+    def descale(self):
+        '''
+        Descale the decorated region, the result is a cluster without the scaling: calling
+        new_spatio_temporal_region here would decorate the descaled data with the scaling again.
+        '''
+        return SpatioTemporalCluster(decorated_region=self.decorated_region.descale(),
+                                     partition=self.partition,
+                                     cluster_index=self.cluster_index,
+                                     region_metadata=self.region_metadata)
+
     def series_at(self, point):
         '''
         Returns the time series at specified point, the point must belong to cluster
-- 
2.43.0


From 48e0743407788e281381b2f63b617d13f08adc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 27/39] fix: distance statistics of a cluster with a single
 point

---
 spta/distance/variance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 21ef80a..4642912 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -80,7 +80,10 @@ class DistanceHistogram(log_util.LoggerMixin):
         # min is the minimum distance after removing the mandatory 0 value from the point of
         # interest, this idiom puts the second-lowest distance at the right place
         # https://stackoverflow.com/a/22546769
-        min_distance_not_zero = np.partition(distances, 1)[1]
+        # a cluster with a single point has no other distance
+        min_distance_not_zero = np.nan
+        if len(distances) > 1:
+            min_distance_not_zero = np.partition(distances, 1)[1]
         max_distance = np.max(distances)
 
         mean = np.mean(distances)
-- 
2.43.0


From 72dc2173f1a46f73f53bacaf349ee66c76932a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 28/39] fix: merging clusters of different types truncates
 values

---
 spta/region/partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 9df9900..90faf2c 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -315,7 +315,8 @@ class PartitionRegionCrisp(PartitionRegion):
             raise ValueError(error_msg.format(list(range(0, self.k)), indices))
 
         # assuming 2d dataset
-        dtype = spatial_clusters[0].as_numpy.dtype
+        # the clusters may have different types (e.g. integer and float results), keep all values
+        dtype = np.result_type(*[cluster.as_numpy.dtype for cluster in spatial_clusters])
         merged_dataset = np.empty((self.x_len, self.y_len), dtype=dtype)
 
         # this will iterate all the points in the region (not over clusters)!
-- 
2.43.0


From 207f48481125b8a7ea63398452e5463e58b03670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 29/39] fix: the centroid of a cluster is one of its own points

---
 spta/region/temporal.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index e255891..3c2e87b 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -248,11 +248,12 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
     def get_centroid(self, distance_measure=None):
         # if a centroid has been set at parent, honor it
         # TODO we should avoid this?
-        if self.centroid is not None:
-            return self.centroid
-        else:
+        if self.centroid is None and self.decorated_region.has_centroid():
             return self.decorated_region.get_centroid(distance_measure)
 
+        # calculate with this region, the decorated region may not have the metadata
+        return SpatioTemporalRegion.get_centroid(self, distance_measure)
+
     def save(self):
         return self.decorated_region.save()
 
@@ -378,6 +379,14 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         else:
             raise ValueError('Point not in cluster: {}'.format(point))
 
+    def has_centroid(self):
+        # the centroid of the decorated region may not be a member of this cluster
+        return self.centroid is not None
+
+    def get_centroid(self, distance_measure=None):
+        # calculate with the points of this cluster
+        return SpatioTemporalRegion.get_centroid(self, distance_measure)
+
     @property
     def all_point_indices(self):
         '''
-- 
2.43.0


From 1c58261308be47429d21658a396dc8a283d1e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 30/39] fix: CSV results abbreviate series of more than 1000
 samples

---
 spta/solver/result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/solver/result.py b/spta/solver/result.py
index a03d269..c8a0ab0 100644
--- a/spta/solver/result.py
+++ b/spta/solver/result.py
@@ -1,6 +1,7 @@
 import csv
 import numpy as np
 import os
+import sys
 
 from spta.region import Point
 from spta.region.base import BaseRegion
@@ -188,7 +189,8 @@ class PredictionQueryResult(BaseRegion):
         csv_dir = self.metadata.csv_dir(self.output_home, self.prediction_region)
         fs_util.mkdir(csv_dir)
 
-        np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
+        # write complete series, numpy abbreviates long arrays by default
+        np.set_printoptions(formatter={'float': '{: 0.3f}'.format}, threshold=sys.maxsize)
 
         self.write_prediction_results(csv_dir)
         self.write_prediction_summary(csv_dir)
-- 
2.43.0


From 37857bf2423102c658033fa09bfc9d31a40fe466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 31/39] fix: centroid by default measure used the distance
 matrix of an earlier region

---
 spta/region/centroid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/region/centroid.py b/spta/region/centroid.py
index e305ef6..86acbad 100644
--- a/spta/region/centroid.py
+++ b/spta/region/centroid.py
@@ -61,7 +61,7 @@ class CalculateCentroid(log_util.LoggerMixin):
         return centroid, distances_to_centroid
 
     @classmethod
-    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=DistanceByDTW()):
+    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=None):
         '''
         Calculate the centroid of the spatio temporal region using provided distance measure.
         If distance matrix is not available, it will be calculated first.
@@ -70,6 +70,10 @@ class CalculateCentroid(log_util.LoggerMixin):
         '''
         spt_region = spt_region_metadata.create_instance()
 
+        # a new instance for each region: the measure keeps the distance matrix of the region
+        if distance_measure is None:
+            distance_measure = DistanceByDTW()
+
         # calculate centroid, should reuse a saved distance matrix if it is available
         centroid_calc = CalculateCentroid(distance_measure)
         centroid, _ = centroid_calc.find_centroid_and_distances(spt_region)
-- 
2.43.0


From 6a26a63f580e48ad70e0f691ece2595766239bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 32/39] fix: silhouette analyses by default measure shared the
 distance matrix of the first region

---
 spta/kmedoids/silhouette.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/kmedoids/silhouette.py b/spta/kmedoids/silhouette.py
index df32441..c1742e6 100644
--- a/spta/kmedoids/silhouette.py
+++ b/spta/kmedoids/silhouette.py
@@ -293,13 +293,17 @@ DEFAULT_SAVE_GRAPHS = 'plots/silhouette'
 
 
 def silhouette_default_metadata(k_values, seed_values, kmedoids_mode='lite',
-                                distance_measure=DistanceByDTW(), initial_medoids=None,
+                                distance_measure=None, initial_medoids=None,
                                 max_iter=1000, tol=0.001, verbose=True, show_graphs=True,
                                 save_graphs=DEFAULT_SAVE_GRAPHS, plot_name=None):
     '''
     Metadata for Silhouette analysis with default values. Still needs k_values and seed_values.
     Adds plot_name, will define save_graphs if present.
     '''
+    # a new instance for each metadata: the measure keeps the distance matrix of a region
+    if distance_measure is None:
+        distance_measure = DistanceByDTW()
+
     if plot_name and save_graphs == DEFAULT_SAVE_GRAPHS:
         # override save_graphs
         save_graphs = 'plots/{}'.format(plot_name)
-- 
2.43.0


From d7015438c78c38ba7294cc344e3d824f62d280dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 33/39] fix: synthetic series with the same random seed had
 different noise

---
 spta/classifier/synthetic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spta/classifier/synthetic.py b/spta/classifier/synthetic.py
index 5dd5546..8fa788c 100644
--- a/spta/classifier/synthetic.py
+++ b/spta/classifier/synthetic.py
@@ -1,4 +1,5 @@
 import csv
+import numpy as np
 import random
 
 from spta.dataset import synthetic_temporal
@@ -13,6 +14,7 @@ def generate_synthetic_series(available_ks, clustering_seeds, num_medoids, num_e
     '''
     logger = log_util.logger_for_me(generate_synthetic_series)
     random.seed(random_seed)
+    np.random.seed(random_seed)     # the noise uses numpy
 
     output = []
 
-- 
2.43.0


From 1a78fe8f269ee78144cfad3fa1b8e87983b83f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 34/39] fix: a clustering suite accepts a single value of k, as
 documented

---
 spta/clustering/suite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index ae26cef..ae6f0dc 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -72,6 +72,9 @@ class ClusteringSuite(log_util.LoggerMixin):
 
         # required
         ks = parameter_combinations.pop('k')
+        if isinstance(ks, int):
+            # single value, convert to list
+            ks = (ks,)
 
         # optional
         random_seeds = (1,)   # ugly but need to iterate in regular...
-- 
2.43.0


From 5aa63b2a9794a99273490d0033bad4dcb2e88a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 35/39] fix: partition analysis accepts a number of bins

---
 experiments/clustering/partition_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experiments/clustering/partition_analysis.py b/experiments/clustering/partition_analysis.py
index 1ccae9e..0eb5121 100644
--- a/experiments/clustering/partition_analysis.py
+++ b/experiments/clustering/partition_analysis.py
@@ -193,6 +193,9 @@ def analyze_partition(region_metadata, clustering_algorithm, output_home, logger
         if args.random:
             random_points = int(args.random)
 
+        # number of bins as integer, otherwise the name of a binning strategy
+        bins = int(args.bins) if args.bins.isdigit() else args.bins
+
         # build a suitable name for the current plot: need info on region, k
         plot_dir = clustering_algorithm.output_dir(output_home, region_metadata)
         fs_util.mkdir(plot_dir)
@@ -201,7 +204,7 @@ def analyze_partition(region_metadata, clustering_algorithm, output_home, logger
         DistanceHistogramClusters.cluster_histograms(clusters=clusters,
                                                      clustering_algorithm=clustering_algorithm,
                                                      random_points=random_points,
-                                                     bins=args.bins,
+                                                     bins=bins,
                                                      with_statistics=True,
                                                      plot_dir=plot_dir,
                                                      alpha=0.5)
-- 
2.43.0


From 4ab51bde312412f935a8b42cfb9089f3def3f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 36/39] fix: subsets in space and time of a scaled region keep
 the scaling data of their points

---
 spta/region/temporal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 3c2e87b..d8fb36c 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -76,9 +76,8 @@ class SpatioTemporalRegion(DomainRegion):
         region: Region
         ti: TimeInterval
         '''
-        numpy_region_subset = \
-            self.numpy_dataset[ti.t1:ti.t2, region.x1:region.x2, region.y1:region.y2]
-        return self.new_spatio_temporal_region(numpy_region_subset)
+        # subclasses have more to subset than the dataset, e.g. the scaling data
+        return self.region_subset(region).interval_subset(ti)
 
     def repeat_series(self, series):
         '''
-- 
2.43.0


From f99736958b9fe92100d4c1874918a2fb55cfd7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 37/39] fix: regular partition of a spatial region does not ask
 for its distance matrix

---
 spta/clustering/regular.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/regular.py b/spta/clustering/regular.py
index 4b2037e..6f40a42 100644
--- a/spta/clustering/regular.py
+++ b/spta/clustering/regular.py
@@ -52,8 +52,9 @@ class RegularClusteringAlgorithm(ClusteringAlgorithm):
         '''
         Create a regular partition for a spatial region, no medoids.
         '''
-        # The partition method also works for spatial regions, notice how the shape is extracted.
-        return self.partition(spatial_region, with_medoids=False)
+        # The implementation also works for spatial regions, notice how the shape is extracted.
+        # There are no distances to be loaded for a spatial region.
+        return self.partition_impl(spatial_region, with_medoids=False)
 
     def partition_impl(self, spt_region, with_medoids=True, save_csv_at=None):
         '''
-- 
2.43.0


From 95ee686db0c3e23a116511cc6d1c303e713008fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 38/39] fix: fuzzy memberships of regions with equal series

---
 spta/kmedoids/kmedoids_fuzzy.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 7cca362..3b650f2 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -136,11 +136,16 @@ def compute_membership_fcm(X, m, medoids, distance_measure, tol):
         # divide by the denominator
         uij[:, i] = uij[:, i] / uij_den
 
-        # special case for medoids (i = medoid index):
-        # uij is (inf / inf) when j is the medoid's cluster, 0 for other clusters
-        # 0 is calculated correctly, but (inf / inf) returns nan.
-        # Here we set that value to 1 to indicate that the medoid has full membership
-        # to its cluster
+    # special case for points that have no distance to some medoids (equal series):
+    # (inf / inf) returns nan, share the membership among these medoids
+    equal_series = dist_mat == 0
+    for j in np.where(equal_series.any(axis=1))[0]:
+        uij[j, :] = equal_series[j, :] / np.sum(equal_series[j, :])
+
+    for i in range(0, k):
+        # special case for medoids: full membership to its cluster, even if there is another
+        # medoid with an equal series
+        uij[medoids[i].index, :] = 0
         uij[medoids[i].index, i] = 1
 
     # sanity check: adding all the membership values of a point should return 1 or very close to it
-- 
2.43.0


From 165119bfa0ce29d7dc2db0f18479c01336fad3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 39/39] fix: centroid indices of clusters can be given as an
 array

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 90faf2c..2e87612 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -182,7 +182,7 @@ class PartitionRegion(BaseRegion):
             cluster_i.name = 'cluster{}'.format(i)
 
             # centroids available?
-            if centroid_indices:
+            if centroid_indices is not None:
                 centroid_index = centroid_indices[i]
                 ci = int(centroid_index / self.y_len)
                 cj = centroid_index % self.y_len
-- 
2.43.0

