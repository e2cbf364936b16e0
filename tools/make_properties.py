import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Regions iterate completely, in row-major order, and slice exactly",
"Iterating any spatial or spatio-temporal region (plain, scaled or a cluster) yields each of its points exactly once, in row-major order, with the value or series stored at that point, and after a completed pass a second pass yields the same sequence; index, list, array and point access all agree with that order. Sub-regions, time intervals, repeated values/series/points and 1d<->2d conversions contain exactly the selected data (half-open bounds, requested shape, point offsets preserved by index order), and neither reading nor slicing changes the source region. Asking for the value at no point (None) gives a missing value instead of failing.",
["inputs","histories"],"all region shapes (1xn, nx1, non-square), contents including NaN, all half-open sub-rectangles and intervals, and sequences of interleaved full iterations, slices and reads on the same object",
"tests sample one 2x3 / 3x3 array per method; shape asymmetries (x vs y), repeated iteration and aliasing between a view and its source are never exercised",
["spta/region/base.py","spta/region/spatial.py","spta/region/temporal.py"],
[("BaseRegion iteration and indexing","spta/region/base.py BaseRegion.__iter__/__next__"),("slicing","spta/region/spatial.py SpatialRegion.region_subset; spta/region/temporal.py SpatioTemporalRegion.region_subset/interval_subset/subset"),("repetition and conversion","spta/region/temporal.py repeat_series/repeat_value/as_list/as_2d")],
[("iterator position","index of the next point to yield","BaseRegion.point_index")],["public Region API"])

p("P02","Functions over regions are applied once per member point and keep locality",
"Applying a function region to a spatial or spatio-temporal region evaluates, for each point of the region, the function stored at that same point (or the single shared function) exactly once on that point's own data, and puts the result at that point; the input is left unchanged. When the region is a cluster only its member points are evaluated, the result is a cluster with the same members, and non-member cells hold no computed data. Results have the requested output length and the spatial shape of the input; a result series of another length, or a function region of another shape than the input, is refused.",
["inputs","configurations"],"all region shapes, cluster masks, per-point functions distinguishable by point, output lengths",
"tests use tiny uniform functions so a function evaluated at the wrong point, twice, or outside the cluster returns the same numbers",
["spta/region/function.py","spta/region/mask.py","spta/region/partition.py"],
[("function application","spta/region/function.py FunctionRegion*.apply_to"),("result typing","spta/region/*.py new_spatial_region / new_spatio_temporal_region")])

p("P03","A partition splits a region into disjoint clusters that merge back losslessly",
"For every crisp partition each point belongs to exactly one cluster: per-point, per-index and list membership queries agree, cluster sizes add up to the number of points, and every cluster region produced from the partition exposes exactly its own points with the values of the source region (asking for a non-member fails with ValueError, time slices keep the membership, and the medoid or centroid given for it is its own). Merging per-cluster results, in any list order, or per-cluster representative values rebuilds for every point the value of the cluster it belongs to; a list that lacks a cluster, repeats one or contains one the partition does not have is refused. The clusters (and medoids) reported as intersecting a rectangle are exactly those with a member inside that half-open rectangle, each reported once.",
["inputs","histories"],"all region shapes, cluster counts and label assignments (including single-point and non-contiguous clusters), all rectangles, all orders of the list of clusters",
"tests check a single 2-cluster partition; disjointness and coverage are universally quantified over label assignments",
["spta/region/partition.py","spta/region/mask.py"],
[("crisp partition","spta/region/partition.py PartitionRegionCrisp"),("cluster regions","spta/region/partition.py SpatialCluster / SpatioTemporalCluster"),("merge","spta/region/partition.py merge_clusters_2d / merge_with_representatives_2d"),("intersection","spta/region/partition.py find_indices_of_clusters_intersecting_with / find_medoids_of_clusters_intersecting_with")],
[("membership array","cluster index of each point","PartitionRegionCrisp.numpy_dataset")])

p("P04","Regular partitions are exactly k non-empty rectangles, or a ValueError",
"A regular partition of an x-by-y region (spatial or spatio-temporal) into k clusters always yields exactly k non-empty, pairwise disjoint, axis-aligned rectangles that cover the region, laid out as a grid whose two divisors of k are as balanced as possible with the longer region axis getting the larger divisor and whose rectangles all have the same sides except for the last row and column of rectangles, which take the remainder; where an axis has room (its length divided by the number of rectangles is at least that number minus one) the last side is at most half as large again as the others. When the region cannot be split into exactly k such rectangles the request fails with ValueError instead of returning a different number of clusters.",
["inputs"],"all x, y, k up to and beyond the region size",
"tests check a couple of (k,x,y) triples; the grid arithmetic depends on divisibility and aspect ratio",
["spta/clustering/regular.py","spta/util/arrays.py","spta/util/maths.py","spta/region/partition.py"],
[("balanced divisors","spta/util/maths.py find_two_balanced_divisors / two_balanced_divisors_order_x_y"),("grid","spta/util/arrays.py regular_partitioning"),("entry","spta/region/partition.py PartitionRegionCrisp.with_regular_partition; spta/clustering/regular.py RegularClustering")])

p("P05","Scaling maps each series to [0,1] and descaling restores the original data",
"Scaling a spatio-temporal region maps the series of every point affinely so its minimum becomes 0 and maximum 1 (a constant series stays finite, missing samples stay missing without affecting the others), recording that point's own minimum and maximum and leaving the source untouched, however often the same scaling function is used and on how many regions. Descaling returns the original values at every point (within rounding), also after taking a sub-region, a time interval, both at once, or a cluster of the scaled region. Values of a scaled region read at any time are scaled values and those of its descaled region are in original units.",
["inputs","histories"],"all shapes and series values (negative, large offset, constant), all sequences of region/interval/cluster slicing before descaling",
"tests scale one small array and descale it directly; the composition with slices and clusters (offset bookkeeping of the per-point ranges) is what can go wrong",
["spta/region/scaling.py","spta/region/temporal.py","spta/region/partition.py"],
[("scaling","spta/region/scaling.py ScaleFunction / SpatioTemporalScaled"),("descale","spta/region/scaling.py DescaleFunction / descale")],
[("scale_min/scale_max","per-point original range","SpatioTemporalScaled.scale_min/scale_max")])

p("P06","k-medoids returns a valid, deterministic local optimum with honest costs",
"For any data set, distance and 2<=k<=n, k-medoids returns k distinct medoids that belong to the data, every item labelled with a nearest medoid (each medoid in its own cluster), per-cluster costs equal to the sum of the distances of the members to their medoid, and a total cost equal to the sum of the cluster costs. The total cost never exceeds that of the initial medoids, and when the run converged within the iteration limit no step of its own update rule improves it by more than the tolerance (replacing a medoid by another member of its cluster with full relabelling; in robust mode by any non-medoid). The initial medoids are those given, or a seed-determined random choice, and the same inputs and seed give the same result whether distances come from a precalculated matrix or are measured on the fly.",
["inputs","configurations"],"all data sets (series or vectors, including ties), k, seeds, modes, user-given initial medoids, matrix/no-matrix",
"tests pin one data set and seed; optimality, label and cost identities quantify over data sets",
["spta/kmedoids/kmedoids.py","spta/clustering/kmedoids.py"],
[("main loop","spta/kmedoids/kmedoids.py run_kmedoids"),("labels and costs","spta/kmedoids/kmedoids.py get_costs_labels / get_medoid_distances"),("seeding","spta/kmedoids/kmedoids.py choose_initial_medoids")])

p("P07","Distance matrices agree with the pairwise measure in every mode",
"For every spatio-temporal region without missing values the distance matrix is symmetric with zero diagonal and its entry (i,j) is the configured measure between the series of points i and j in row-major order; spatially weighted DTW adds exactly weight times the Euclidean distance between the points, once for every matrix that is computed or loaded. Computing it in parallel, with any worker count and schedule, gives the same matrix as computing it serially. Loading accepts only a saved square matrix of the region's size (ValueError otherwise, None when there is no file), and distances from a point to points are the same with and without the precalculated matrix, in the order of the requested indices.",
["inputs","schedules","configurations","histories"],"all regions, measures (DTW and spatial DTW for matrices; RMSE for measuring and combining), worker counts, chunk sizes, completion orders, load sequences, index subsets",
"tests compute one small serial matrix; the parallel code, loading twice, and index handling are never compared against the measure",
["spta/distance/__init__.py","spta/distance/dtw.py","spta/distance/dtw_parallel.py","spta/distance/rmse.py","spta/util/parallel.py"],
[("serial","spta/distance/__init__.py DistanceBetweenSeries.compute_distance_matrix / distances_to_point"),("spatial weight","spta/distance/dtw.py DistanceBySpatialDTW"),("parallel","spta/util/parallel.py InterPointsOperation; spta/distance/dtw_parallel.py")],
[("distance_matrix","cached matrix of the measure","DistanceBetweenSeries.distance_matrix")])

p("P08","Centroids and intra-cluster costs minimise and measure what they claim",
"The centroid of a region or cluster is one of its own points and no other member has a smaller sum of distances to all members, and the distances reported with it are those from the centroid to each member in order. The intra-cluster cost of a partition equals the sum over clusters of the squared distances of the members to the medoid the partition has for their cluster, and each cluster uses only its own members. A region that knows its own centroid keeps to it, also when it decorates another region that knows a different one.",
["inputs","configurations"],"all regions, clusters, measures, with or without a precalculated matrix",
"tests check a single region; minimality quantifies over members and data",
["spta/region/centroid.py","spta/region/partition.py","spta/distance/__init__.py"],
[("centroid","spta/region/centroid.py CalculateCentroid"),("cost","spta/region/partition.py / spta/clustering intra_cluster_cost")])

p("P09","The elbow analysis picks, per seed, the k of greatest cost curvature",
"For a suite of k-medoids partitions the elbow reported for each random seed is the k (strictly inside the range of that seed's ordered k values) at which the second difference (the estimated second derivative when the k values are unevenly spaced) of that seed's own intra-cluster costs is largest, the first one on ties. The elbow of one seed never depends on the costs of other seeds present in the suite, and costs and partitions are matched to the clustering that produced them.",
["inputs","histories"],"all cost curves, numbers of ks and seeds, interleavings of seeds in the suite",
"tests use one seed or hand-written cost maps; cross-seed contamination needs several seeds in a suite",
["spta/clustering/suite.py","spta/clustering/kmedoids.py"],
[("elbow","spta/clustering/suite.py FindSuiteElbow"),("identity of a clustering","spta/clustering/kmedoids.py KmedoidsClusteringMetadata; spta/clustering/factory.py / __init__.py ClusteringMetadata.__eq__/__hash__")])

p("P10","Saved partitions are reused faithfully, only for the same request, even on crash",
"Requesting a clustering twice on the same region, measure and parameters with the same pickle home yields the same partition and medoids whether it is computed or loaded from disk, the saved result answers the repeated request without clustering again, and requests differing in region, measure, k, seed, mode, initial medoids, clustering type or pickle home never receive each other's result. If a process dies at any point while saving, or the saved file is missing, truncated or unreadable, a later request recomputes and returns the correct partition instead of failing or returning damaged data.",
["histories","crash_points","fault_sequences","configurations"],"all sequences of requests over differing configurations sharing directories, all truncation points of the saved file",
"tests never request twice from disk, never share a directory between configurations and never truncate files",
["spta/clustering/__init__.py","spta/clustering/kmedoids.py","spta/clustering/regular.py","spta/region/partition.py"],
[("cache path","spta/clustering ClusteringAlgorithm.pickle_full_path"),("save/load","spta/clustering ClusteringAlgorithm.save_partition / load_previous_partition; spta/region/partition.py PartitionRegion.to_pickle / try_from_pickle")],
[("saved partition","pickle file per region/measure/clustering","<pickle_home>/...")])

p("P11","Clustering descriptions round-trip and suites enumerate every combination once",
"The textual form of a clustering description without initial medoids rebuilds a description with the same type, k, seed and mode, two descriptions that differ in type, k, seed, mode or initial medoids are unequal, and a classifier label k-seed-cluster identifies the same clustering and cluster index. A suite enumerates every combination of its parameter values exactly once, in the given order (all seeds of the first k before the next k). The results file of a suite lists every clustering of the suite with its total cost and its medoids, and reading it back gives, for every clustering, the same medoids in cluster order.",
["inputs","configurations"],"all k, seeds, modes, suites with scalar or list parameters, results files with any region size",
"tests round-trip one repr; the relation quantifies over parameters",
["spta/clustering/__init__.py","spta/clustering/kmedoids.py","spta/clustering/regular.py","spta/clustering/factory.py","spta/clustering/suite.py","experiments/clustering/partition_analysis.py"],
[("repr","KmedoidsClusteringMetadata.__repr__/from_repr/from_classifier_label"),("suite","spta/clustering/suite.py ClusteringSuite.__iter__ / retrieve_suite_result_csv"),("suite CSV writer","experiments/clustering/partition_analysis.py analyze_suite")])

p("P12","Training never sees test data and trains exactly the requested points",
"Splitting a region keeps, at every point, exactly the last test_len samples as observation and all earlier samples as training, in order and without overlap. Every forecast model is trained once per point on that point's own training series only: changing the test samples never changes a trained model or its forecast. When training is restricted to representatives only those points get models; failing points are left without a model and the reported number of missing models equals the number of points of the region that have no model.",
["inputs","configurations","fault_sequences"],"all regions, clusters, test lengths, trainers, representatives and failing points",
"tests check shapes on one region; leakage is a non-interference property over pairs of inputs",
["spta/model/train.py","spta/model/forecast.py","spta/arima/train.py"],
[("split","spta/model/train.py SplitTrainingAndTestLast / SplitTrainingAndTestRatio"),("train","spta/model/train.py ModelTrainer / TrainAtRepresentatives / NoTrainer"),("missing models","spta/model/base.py ModelRegion.missing_count")])

p("P13","Forecast models forecast what they define, at every point",
"A model region forecasts at each point with that point's own model: mean-of-past repeats the mean of exactly the requested last samples (of all samples, if fewer are available), k-nearest-neighbours predicts the average of the k past windows (of the requested length) closest to the last window (all of them if there are exactly k, ValueError if there are fewer), and ARIMA(p,d,q) gives the forecast of a fit with that order on the point's training series. Forecasts have the requested length, a point without a model gets NaN of that length, and using one point's model for a whole region repeats that same forecast everywhere. Refitting ARIMA uses the order found originally at each point and leaves points without a model without one.",
["inputs","configurations","fault_sequences"],"all training series, model parameters, forecast lengths and positions of failed models",
"tests check one series per model type",
["spta/model/mean.py","spta/model/knn.py","spta/model/base.py","spta/arima/model.py","spta/arima/train.py"],
[("model region","spta/model/base.py ModelRegion.apply_to"),("kNN","spta/model/knn.py predict_future_values_with_knn / find_k_nearest_neighbors"),("ARIMA","spta/arima/model.py, spta/arima/train.py")])

p("P14","Error measures equal their definitions at each point and overall",
"For every point the reported MSE, sMAPE (mean of 200|e|/(f+o), on positive data) and MASE equal their textbook definitions on that point's observation and forecast (MASE scaled by the mean absolute one-step naive error of that point's own, non-constant, training series), and perfect forecasts give zero. Points without a forecast are missing (NaN) and excluded; the overall error is the root of the mean of the squares of the remaining errors. Repeating one forecast over the region evaluates that same forecast against each point's own observation; unknown error names fail with ValueError.",
["inputs"],"all observation, forecast and training data, error types, missing positions",
"tests check a few hand-computed numbers",
["spta/util/error.py","spta/model/error.py"],
[("measures","spta/util/error.py"),("regions","spta/model/error.py MeasureForecastingError / ErrorRegion / ErrorAnalysis")])

p("P15","Parallel and serial evaluation of every forecast give the same errors",
"The overall error obtained by using each point's forecast for the whole region is, at every point, the overall error of that point's forecast repeated over all points against their own observations, and is the same for any number of parallel workers and any scheduling of them. A point without a forecast gets a missing value and does not disturb the others.",
["schedules","inputs","configurations"],"all worker counts, chunkings, task orders, completion orders, error types and missing forecasts",
"tests run a single worker count on one region and cannot vary schedules",
["spta/model/error.py","spta/model/error_parallel.py","spta/util/parallel.py"],
[("serial","spta/model/error.py OverallErrorForEachForecast"),("parallel","spta/model/error_parallel.py ParallelForecastError; spta/util/parallel.py")])

p("P16","Forecast analysis is consistent and independent of its history",
"After training, every analysis (forecast at each point, one point's model for the whole region, every model for the whole region, and the summary of minimum, local-minimum, centroid and maximum errors) equals what is obtained from the trained models and error definitions directly, so that minimum <= the overall error of any other single model (local minimum, centroid) <= maximum. Results depend only on the latest training: retraining with other data, test lengths or calling analyses in any order or repeatedly never leaks forecasts or errors from earlier calls.",
["histories","inputs"],"all sequences of train / analyse calls with different regions, lengths and error types on the same analysis object",
"tests make one call on a fresh object; the stale-cache bugs need call histories",
["spta/model/forecast.py"],
[("analysis object","spta/model/forecast.py ForecastAnalysis")],
[("forecast_region_each","cached forecasts of the trained models","ForecastAnalysis.forecast_region_each")])

p("P17","The solver answers queries with the right cluster's model in original units",
"For every rectangle inside the region, the solver's prediction at each point is the forecast of the model trained at the medoid of the cluster that contains the point, in the original (descaled) units of that point when the region is scaled, with the requested length (or the test length for an in-sample query). In-sample answers also carry the point's own held-out observations and the requested error measure computed against the training data of the solver; out-of-sample answers are forecasts of the models refitted on the full series. Querying a sub-rectangle gives the same answer per point as querying a larger one, in any order and any number of times.",
["inputs","configurations","histories"],"all rectangles, forecast lengths, scaled/unscaled regions, clusterings, sequences of queries",
"tests use stubs or one query; consistency between overlapping queries and offsets is not observable by a single call",
["spta/solver/train.py","spta/solver/model.py","spta/solver/result.py"],
[("training","spta/solver/train.py SolverTrainer.train"),("prediction","spta/solver/model.py SolverWithMedoids.predict"),("result","spta/solver/result.py PredictionQueryResult")])

p("P18","A saved solver answers exactly like the solver that was saved",
"Saving a trained solver and loading it by its metadata, also from another process, gives a solver with the same answers for every query, in-sample and out-of-sample. Solvers trained with different region, clustering, measure, model, test length or error settings are stored separately, so saving one never changes the answers of another; loading a solver that was never saved, or one of whose files is gone, fails instead of returning one that answers differently.",
["histories","configurations"],"all sequences of save/load of solvers with differing metadata in the same directory",
"tests never save and reload several solvers",
["spta/solver/metadata.py","spta/solver/model.py","spta/solver/train.py"],
[("storage path","spta/solver/metadata.py SolverMetadata.pickle_filename / __repr__"),("pickle","spta/solver/model.py SolverPickler")])

p("P19","Query results report the right point, cluster, coordinates and values",
"For a query over a rectangle of an offset region every accessor of the result (forecast, error, test series, cluster index, absolute coordinates) refers to the same physical point, and the absolute coordinate is the region's offset plus the domain point. The CSV files and textual lines of a query contain one entry per queried point, in row-major order, with exactly the values of the accessors, and the summary aggregates the errors of those points; different queries go to different files.",
["inputs","configurations"],"all region offsets, rectangles, in/out-of-sample queries",
"tests use one region with zero or small offsets and do not read back files",
["spta/solver/result.py","spta/region/metadata.py"],
[("result","spta/solver/result.py PredictionQueryResult* / save_as_csv")])

p("P20","Classifier training data labels points with their true nearest medoid",
"For every point, the chosen medoid among all clusterings of a suite is one with minimal distance (or minimal forecast error) to the point, the first such in suite order, after excluding only choices whose quota is exhausted, and the choice is reported with its own cluster label and value. Random training points are distinct, inside the region, never medoids, exactly as many as requested and reproducible by seed. The generated training files contain, for each such point or medoid, the series of that very point and the label of that choice.",
["inputs","configurations","histories"],"all regions (any offset), suites, seeds, counts, quotas, ties",
"tests use one tiny suite; minimality and quota exclusion quantify over suites and call sequences",
["spta/classifier/train_input.py","spta/util/maths.py","spta/util/arrays.py"],
[("choice","spta/classifier/train_input.py MedoidsChoice*.choose_medoid"),("random points","spta/classifier/train_input.py get_random_points_different_to_medoids; spta/util/maths.py random_integers_with_blacklist"),("series","spta/classifier/train_input.py MedoidSeriesFormatter / TrainDataWithRandomPoints")])

p("P21","The classifier-driven solver uses, per point, the model of the predicted label",
"For every queried point the classifier-driven solver forecasts with the model trained at the medoid of the clustering and cluster named by the label the classifier gives to that point's own (scaled) series, in original units, and reports that cluster. Points with different labels get different models, solvers loaded for one clustering are never used for another, and the answers do not depend on the order of points or on earlier queries.",
["inputs","histories","configurations"],"all label assignments over several clusterings of a suite, rectangles and query sequences",
"the tests stub the classifier for one query; label-to-solver routing is only observable with many labels",
["spta/classifier/model.py"],
[("routing","spta/classifier/model.py SolverFromClassifier.predict")])

p("P22","Sliding windows enumerate every window of every series with its own label",
"Sliding a window of length w over a series of length n gives exactly the n-w+1 contiguous windows in order, and a window longer than the series is rejected or gives none. Applying it to labelled series yields, for each series, every one of its windows paired with that series' label, never a window that mixes series or labels, in order.",
["inputs"],"all series lengths, window sizes, label assignments",
"tests check one array",
["spta/util/arrays.py","spta/classifier/sliding_window.py"],
[("window","spta/util/arrays.py sliding_window"),("labels","spta/classifier/sliding_window.py apply_sliding_window_to_labeled_series")])

p("P23","Dataset loading returns exactly the requested years, region and sampling",
"Loading a dataset interval returns exactly the samples of the requested years (leap years included) for the requested rectangle, from the raw file or from a cached file alike; daily data are the means of each day's four consecutive samples. Requests outside the available years, or for other invalid intervals, fail with ValueError; caching never changes what later requests with other years or sampling return, and loading through region metadata gives the scaled or original data its metadata asks for.",
["inputs","histories","configurations"],"all year ranges, rectangles, samplings, scaled/unscaled, sequences of requests sharing the cache",
"the existing tests need the real dataset and check one interval",
["spta/dataset/temp_brazil.py","spta/region/temporal.py","spta/util/maths.py"],
[("read","spta/dataset/temp_brazil.py retrieve_dataset_interval / read_hdf5_dataset_by_year"),("average","spta/dataset/temp_brazil.py average_4spd_to_1spd"),("calendar","spta/util/maths.py years_to_series_interval")],
[("cached datasets","raw/*.npy","spta/dataset/temp_brazil.py")])

p("P24","Region metadata converts coordinates consistently and names files uniquely",
"Converting indices, domain points and rectangles to absolute coordinates adds exactly the region's offset, agrees with row-major order, and inverts the crop made when the region is loaded. Metadata that differ in name, years, sampling or scaling never share dataset, scale-range, pickle or output locations, and metadata rebuilt from the same values are interchangeable.",
["inputs","configurations"],"all region rectangles, years, samplings, scaling flags",
"tests check one metadata object",
["spta/region/metadata.py"],
[("coordinates","spta/region/metadata.py index_to_absolute_point / absolute_position_of_point / absolute_coordinates_of_region"),("names","spta/region/metadata.py *_filename / *_dir")])

p("P25","Extremes of regions and arrays ignore missing values and locate correctly",
"The minimum (maximum) of a spatial region or cluster is the smallest (largest) non-missing value among its own points, returned with a point that holds it, the first in row-major order on ties. The array helpers return the same for plain arrays together with the index; values of non-members or NaN never win.",
["inputs"],"all shapes, values, NaN positions, ties, cluster masks",
"tests check one array with a unique minimum",
["spta/region/spatial.py","spta/util/arrays.py","spta/region/partition.py"],
[("region extremes","spta/region/spatial.py find_minimum / find_maximum"),("array extremes","spta/util/arrays.py minimum_value_and_index / maximum_value_and_index")])

p("P26","Fuzzy memberships are valid distributions and masks apply the threshold",
"Fuzzy memberships computed for any distances to distinct medoids are in [0,1], sum to one per point, do not increase with distance, give a medoid full membership of its own cluster, and are shared equally among the medoids a point is equal to. A fuzzy mask for a cluster contains exactly the points whose membership of that cluster is within the threshold of the point's highest membership (threshold 0: the crisp assignment, 1: every point), and its size, iteration, membership test and clones agree; thresholds outside [0,1] are refused. The fuzzy k-medoids run returns distinct medoids with exactly their memberships and costs, never costs more than its initial medoids, leaves no single swap that saves more than the tolerance (unless stopped by the iteration limit) and is reproducible for a seed.",
["inputs"],"all membership matrices, thresholds (including values equal to the threshold), shapes, fuzzifiers",
"tests check one mask",
["spta/region/mask.py","spta/kmedoids/kmedoids_fuzzy.py"],
[("mask","spta/region/mask.py MaskRegionFuzzy"),("memberships","spta/kmedoids/kmedoids_fuzzy.py compute_membership_fcm")])

p("P27","Distance histograms count each member once with true distances",
"The distances behind a region or cluster histogram are those from its medoid or centroid to each of its points exactly once, and the reported count, minimum (excluding the medoid itself; NaN for a singleton), maximum, mean, deviation and median are those of these distances. Random points added from other clusters lie outside the cluster, are distinct, capped at the available number and are measured against the same medoid, and the reported intersection counts those that are nearer than the cluster's farthest point. The axis limit shared by the subplots of a figure covers every cluster distance.",
["inputs","configurations"],"all regions, partitions, random point counts, measures",
"no existing test covers it",
["spta/distance/variance.py"],
[("histograms","spta/distance/variance.py DistanceHistogram*")])

p("P28","Silhouette analysis selects the clustering with the best true average",
"The silhouette average of each clustering of a suite equals the definition (mean over points of (b-a)/max(a,b) with the configured distances and that clustering's labels), and the analysis returns the highest average together with the clustering that attains it, the first on ties. The reported figures do not depend on cached partitions being present.",
["inputs","histories","configurations"],"all regions, suites, cached and uncached runs",
"no existing test runs the analysis",
["spta/clustering/silhouette.py"],
[("analysis","spta/clustering/silhouette.py SilhouetteAnalysis")])

p("P29","Regions saved to disk load back unchanged",
"Saving or pickling any region (spatial, spatio-temporal, scaled, cluster, partition, model or error region) and loading it from the same location returns a region of the same kind with the same values, membership, scaling ranges and metadata. Regions with different metadata or target names saved in any order never overwrite one another, and saving does not modify the region.",
["histories","inputs","configurations"],"all region kinds and contents, sequences of saves and loads",
"tests never save regions",
["spta/region/spatial.py","spta/region/temporal.py","spta/region/scaling.py","spta/region/base.py"],
[("save","spta/region/*.py save_to / pickle_to / from_pickle / save / pickle")])

p("P30","Clustering experiments report each clustering's own partition and cost",
"Running the partition analysis of a suite writes one row per clustering with that clustering's total intra-cluster cost and absolute medoid coordinates, and one membership file per clustering listing each cluster's points and coverage exactly as in the partition. Re-running, with or without cached partitions, reproduces the same files. With the options of the program, the best silhouette logged is that of these partitions, the histograms drawn for every cluster hold the distances of its own members (and the requested number of outside points), one figure per clustering is saved under the directory of that region, and the reports stay the same.",
["histories","configurations"],"all suites, offset regions, first and repeated runs, with stale or missing caches",
"no existing test runs the experiments",
["experiments/clustering/partition_analysis.py","spta/clustering/__init__.py","spta/clustering/suite.py"],
[("driver","experiments/clustering/partition_analysis.py analyze_suite"),("per-clustering CSV","spta/clustering ClusteringAlgorithm save_csv_at")])
p("P31","The solver programs train and answer queries as their arguments say",
"Every command-line solver (auto ARIMA, k-NN, mean of past; per cluster or per point) trained and queried by its program uses exactly the region, clustering, model parameters, test length and error named by the arguments. The forecast, test values and error it prints and writes for each point of the query rectangle are those of the model of that point's medoid (or, for the per-point programs, of the point itself), at the point's absolute coordinates; the figure of a query by cluster shows the partition and medoids of that solver and the rectangle of the query. Solvers trained with different arguments never answer for each other, in any order of training and querying; a query for which nothing was trained fails instead of answering.",
["histories","configurations","inputs"],"all regions (offset, scaled), solver settings, orders of training, retraining and querying, rectangles",
"tests call solver classes with one setting; nothing runs the programs or a history of several settings",
["experiments/auto_arima/solver.py","experiments/auto_arima/solver_each.py","experiments/baseline/solver_knn_medoids.py","experiments/baseline/solver_knn_each.py","experiments/baseline/solver_mean_past.py","spta/solver/model.py","spta/solver/metadata.py","spta/solver/train.py","spta/solver/result.py"],
[("programs","experiments/*/solver*.py processRequest / do_train / do_predict"),("solver identity","spta/solver/metadata.py"),("answers","spta/solver/result.py")],
[("saved solvers","pickle/*/solver_*.pickle","spta/solver/metadata.py")])
p("P32","Error-analysis programs report the true errors of every cluster and region",
"The cluster error-analysis programs (auto ARIMA, ARIMA) and the region report write, for every clustering of the suite, every cluster and every model, exactly one row: cluster, size, orders (and AIC of the medoid's model), number of failed models and the five forecast errors (own models, minimum, minimum local, medoid, maximum) as defined by the data, the labels and the models of those points for the error named by the arguments. Points without a model are counted and do not disturb other rows; runs over saved files, in parallel or with plots, report the same.",
["inputs","configurations","faults","histories"],"all regions, suites of clusterings, model orders, error types, points whose model cannot be fitted, reruns",
"tests analyse one fixed tiny region in memory; no test runs the programs or a suite with failed models",
["experiments/auto_arima/training_error_analysis.py","experiments/arima/training_error_analysis.py","experiments/arima/forecast.py","spta/model/error.py","spta/model/forecast.py"],
[("programs","experiments/auto_arima/training_error_analysis.py; experiments/arima/training_error_analysis.py; experiments/arima/forecast.py"),("analysis","spta/model/forecast.py, spta/model/error.py")])
p("P33","Distance/error reports describe the medoid's model at each member",
"For every cluster of every clustering, the distance/error program writes one file with one row per member: its absolute position, its distance to the medoid and the error of the medoid's model at that member, for the test length and error type of the arguments. The errors-between-medoids program writes one k-by-k table whose entry (i, j) is the error of medoid i's model at medoid j. Medoids without a model show missing values and do not disturb other clusters; earlier runs with other lengths or errors never change the result.",
["inputs","configurations","faults","histories"],"all regions, offsets, suites, test lengths, error types, failing medoids, sequences of runs",
"no test runs these programs; they join partition, distances, models and offsets, each tested separately at most",
["experiments/auto_arima/distance_errors.py","experiments/auto_arima/error_between_medoids.py","spta/model/error.py","spta/region/partition.py"],
[("programs","experiments/auto_arima/distance_errors.py; experiments/auto_arima/error_between_medoids.py"),("errors","spta/model/error.py")])
p("P34","Distance, centroid and elbow programs agree with each region's own distances",
"In any order of program runs over several regions, the distance program saves exactly the DTW matrix of that region as loaded (scaled or not; serial or parallel) and touches no other region's files; the centroid program and the centroid catalogue answer a point of that region that minimises the sum of its own distances (or the precalculated one), and fail when no distances were saved; the table of medoid distances and the elbow of every seed follow from that region's saved matrix and the suite's partitions.",
["histories","inputs","configurations"],"all sequences of programs over regions that share shape, dataset or suite; scaled, offset, parallel",
"tests use one region and one call; nothing runs these programs or mixes regions in one process",
["experiments/region/distance.py","experiments/region/centroid.py","experiments/metadata/centroid.py","experiments/clustering/medoid_distances.py","experiments/clustering/find_elbows.py","spta/region/centroid.py","spta/distance/__init__.py"],
[("programs","experiments/region/distance.py; experiments/clustering/medoid_distances.py; experiments/clustering/find_elbows.py"),("centroids","experiments/metadata/centroid.py, spta/region/centroid.py")],
[("saved distances","pickle/.../distances npy","spta/region/metadata.py distances_filename")])
p("P35","Series averaging and synthetic series meet their definitions",
"For any set of series (also of different lengths), the DTW of the averaging module is the textbook one whatever its work matrices held before, the starting medoid minimises the sum of squared distances among its candidates, and no averaging step increases that sum, changes the length or leaves the range of the values; inputs are unchanged. Generated synthetic series are the noisy lines their labels say, inside the requested sets and intervals, written to CSV as generated, and identical for the same random seed.",
["inputs","histories"],"all sets of series and lengths, numbers of iterations, generator parameters and seeds",
"no test covers these modules",
["spta/dba/dba.py","spta/classifier/synthetic.py","spta/dataset/synthetic_temporal.py"],
[("averaging","spta/dba/dba.py performDBA, DBA_update"),("generator","spta/classifier/synthetic.py, spta/dataset/synthetic_temporal.py")])
p("P36","Classifier programs keep label, solver and series together end to end",
"When solvers are trained over the clusterings of a suite and training data is extracted by the programs, every row of training data is a series of the region labelled with the cluster (k, seed, index) that the criterion selects for that series under the given test length and error. A query by command line then labels every point of the rectangle by the series of that point in the queried region (or the named out-of-sample region) and answers, prints and writes the forecast, error and test values of exactly the trained solver and medoid the label names, for the test length, error and model parameters of the arguments. If a needed solver was not trained the query fails and writes no answer; other networks, other regions and earlier queries never change an answer.",
["histories","configurations","inputs"],"all regions, suites, test lengths, error types, orders of training, extraction and querying, rectangles, networks",
"tests call single classes; nothing runs train, extract and query in sequence or with other than default arguments",
["experiments/classifier/solver_dnn.py","experiments/clustering/extraction_lstm.py","experiments/auto_arima/solver.py","spta/classifier/dnn.py","spta/classifier/train_input.py","spta/solver/auto_arima.py","spta/solver/metadata.py"],
[("programs","experiments/classifier/solver_dnn.py; experiments/clustering/extraction_lstm.py; experiments/auto_arima/solver.py"),("labels","spta/classifier/dnn.py, spta/classifier/train_input.py"),("solvers","spta/solver/*.py")])
p("P37","Silhouette analysis reports the clustering with the best score",
"For any region, set of k values and seeds, distance measure (default or given, with or without a matrix), k-medoids mode and initial medoids, the silhouette analysis answers a requested combination of k and seed whose silhouette score is the highest of all requested ones, with exactly the medoids and labels of that k-medoids run on the distances of that region, whatever was analysed before in the process; a figure per run is saved (or none) as requested. In the silhouette program the saved region and distance matrix are those of the region as loaded, the steps of several regions may interleave, and the figures shown (partition, silhouettes, distances to the corner and the center) draw that region's values.",
["inputs","configurations","histories"],"all regions, k and seed sets, measures, modes, given medoids, graphs on or off, orders of steps of several regions",
"no test covers the analysis or its plots; scores must be compared over all combinations",
["spta/kmedoids/silhouette.py","spta/util/plot.py","experiments/clustering/silhouette.py","spta/kmedoids/kmedoids.py"],
[("analysis","spta/kmedoids/silhouette.py do_silhouette_analysis"),("program","experiments/clustering/silhouette.py, spta/kmedoids/silhouette.py KmedoidsWithSilhouette"),("plots","spta/util/plot.py plot_clustering_silhouette, plot_discrete_spatial_region")])

p("P38","Named experiments run by their scripts do what their names and arguments say",
"Every named region loads exactly the rectangle, years, sampling and scaling that its name states (entries of one region share one rectangle, no two names share files). Every named suite gives each combination of its k and seeds exactly once and the same ones every time it is asked for, however walks are interleaved; named ARIMA suites give each (p, d, q) combination once, in that order; every named experiment refers to a suite and a model that exist. The shell scripts, started from any directory, run the corresponding program on the named region with all their arguments and write only in their own tree: distances, centroid, partition analysis, elbows, distances between medoids, error analyses, and training and querying of the auto-ARIMA, k-NN and mean solvers, in processes of their own that hand results over through files only, give the results that follow from the named data and arguments, and end with a failure status when an earlier step is missing.",
["inputs","configurations","histories"],"all names of the catalogues, all orders of script runs over datasets of those years, walks of suites in any interleaving",
"tests never start a program, use no catalogue, and always hand over objects in one process",
["experiments/metadata/region.py","experiments/metadata/clustering.py","experiments/metadata/arima.py","experiments/metadata/arima_clustering.py","scripts","experiments/auto_arima/solver.py","experiments/clustering/partition_analysis.py"],
[("catalogues","experiments/metadata/*.py"),("scripts","scripts/*.sh"),("programs","experiments/*/*.py processRequest")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
