"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "tslearn/metrics/"
p("C01", "DTW is the minimum over all admissible warping paths, with a witness path",
  "For any two non-empty series of equal dimensionality (any lengths, trailing NaNs ignored) and any feasible global constraint, the DTW value is the square root of the smallest sum of squared pointwise distances over all monotone, continuous warping paths that join both corners inside the constraint region; with a user-supplied or precomputed ground metric it is the smallest plain sum of that metric. "
  "The returned path is such a path (both ends, legal steps, inside the region) and attains exactly the returned value.",
  ["inputs", "configurations"], "all pairs of series over a small value alphabet, lengths 1..4 and dimensions 1..2, all constraint settings, metrics, backends",
  "Tests compare a handful of fixed series with constants; optimality is a statement about every path of every input pair.",
  [M + "_dtw.py", M + "utils.py", M + "_masks.py"],
  [("accumulated cost recursion", M + "_dtw.py"), ("path trace-back", M + "utils.py")],
  ["tslearn.metrics.dtw", "tslearn.metrics.dtw_path", "tslearn.metrics.dtw_path_from_metric"])
p("C02", "A global constraint means the same region at every entry point",
  "The Sakoe-Chiba band of radius r contains exactly the cells at most r away from the band joining both corners, the Itakura region is the parallelogram of the given maximum slope, and a constraint that admits no path is rejected with an error instead of being used. "
  "Every function or estimator that accepts a global constraint (elastic measures, their path and matrix variants, barycenters, nearest neighbours, clustering) gives the result of exactly that region, whether the constraint is given by name or implied by its parameter.",
  ["inputs", "configurations"], "all length pairs up to 9x9, radii 0..4, slopes, and every public entry point taking a constraint, on inputs where the constraint binds",
  "Tests exercise constraints mainly on dtw with a few fixed sizes; that no entry point drops or reinterprets the constraint is a statement over all of them and all size pairs.",
  [M + "_masks.py", M + "_dtw.py", M + "_frechet.py", M + "_soft_dtw.py", M + "dtw_variants.py", "tslearn/neighbors/neighbors.py", "tslearn/clustering/kmeans.py", "tslearn/barycenters/dba.py"],
  [("mask construction", M + "_masks.py"), ("keyword plumbing", M + "softdtw_variants.py, neighbors.py, kmeans.py, dba.py")],
  ["tslearn.metrics.sakoe_chiba_mask", "tslearn.metrics.itakura_mask", "cdist_* functions", "metric_params of estimators"])
p("C03", "The Frechet measure is the minimum over paths of the largest local distance",
  "For any two non-empty series of equal dimensionality and any feasible constraint, the discrete Frechet value is the smallest, over all admissible warping paths, of the largest ground distance on the path (Euclidean by default, or the user-supplied or precomputed metric). "
  "The returned path is admissible and its largest ground distance equals the returned value.",
  ["inputs", "configurations"], "all pairs of series over a small alphabet, lengths 1..4, dims 1..2, constraints, metrics, backends",
  "Tests check a few constants; min-max optimality quantifies over all paths of all inputs.",
  [M + "_frechet.py"], [("min-max recursion and trace-back", M + "_frechet.py")],
  ["tslearn.metrics.frechet", "tslearn.metrics.frechet_path", "tslearn.metrics.frechet_path_from_metric", "tslearn.metrics.cdist_frechet"])
p("C04", "Soft-DTW is the soft minimum over all admissible paths, with its exact gradient",
  "For any two series and gamma > 0, soft-DTW equals -gamma log of the sum, over all admissible warping paths, of exp(-cost/gamma) with squared Euclidean ground cost; its alignment matrix is the expected path under that Gibbs distribution; gamma = 0 gives squared DTW and the normalised variants subtract the mean of both self-values. "
  "Single, path, matrix, low-level and PyTorch-loss entry points agree with this, including the gradient obtained by automatic differentiation.",
  ["inputs", "configurations"], "all pairs of small series over an alphabet, gammas from 0 to 10, constraints, self/cross/normalised matrices, loss module",
  "Tests check single points; the soft minimum and its gradient are defined through every path of every input.",
  [M + "_soft_dtw.py", M + "softdtw_variants.py", M + "soft_dtw_fast.py", M + "soft_dtw_loss_pytorch.py"],
  [("soft-min recursion", M + "_soft_dtw.py"), ("backward recursion", M + "soft_dtw_fast.py"), ("autograd function", M + "soft_dtw_loss_pytorch.py")],
  ["soft_dtw", "soft_dtw_alignment", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "SoftDTW", "SquaredEuclidean", "SoftDTWLossPyTorch"])
p("C05", "LCSS is the longest common subsequence inside the band, with a witness path",
  "For any two series, threshold eps and feasible constraint, the LCSS similarity is the size of the largest set of strictly increasing index pairs inside the constraint region whose ground distance is at most eps, divided by the shorter length. "
  "The returned path is such a set of pairs, of exactly that size, for the default, user-supplied and precomputed ground metrics.",
  ["inputs", "configurations"], "all pairs of series over a small alphabet, lengths 1..4, several eps, constraints, metrics, backends",
  "Tests check a few unconstrained constants; optimality and band membership quantify over all matchings of all inputs.",
  [M + "dtw_variants.py"], [("accumulated matrix and trace-back", M + "dtw_variants.py")],
  ["lcss", "lcss_path", "lcss_path_from_metric"])
p("C06", "Subsequence DTW finds the best-matching window",
  "For a query and a longer series, every entry of the subsequence cost matrix is the smallest accumulated squared cost of aligning the query prefix with some window of the series ending at that column; the subsequence DTW value is the square root of the smallest last-row entry. "
  "The returned path starts at the query's first sample, ends at its last, takes legal steps, and attains that value (for a chosen end column, that column's entry).",
  ["inputs", "configurations"], "all query/series pairs over a small alphabet with lengths 1..3 and 1..5, dims 1..2, backends",
  "A few examples cannot show optimality over all windows and all paths.",
  [M + "dtw_variants.py"], [("subsequence recursion and path", M + "dtw_variants.py")],
  ["dtw_subsequence_path", "subsequence_cost_matrix", "subsequence_path"])
p("C07", "Length-limited DTW is the optimum over paths of bounded length",
  "For any two series and any limit at least as large as the longer one, length-limited DTW is the square root of the smallest squared cost over warping paths having at most that many index pairs, and the returned path respects the limit and attains the value; smaller limits are rejected. "
  "With a limit of at least the sum of both lengths minus one it equals unrestricted DTW.",
  ["inputs", "configurations"], "all pairs over a small alphabet with lengths 1..4, every limit, dims 1..2, backends",
  "Tests check a few constants; optimality quantifies over every bounded path.",
  [M + "dtw_variants.py"], [("per-length cost table", M + "dtw_variants.py")],
  ["dtw_limited_warping_length", "dtw_path_limited_warping_length"])
p("C08", "LB_Keogh is a true lower bound built from the exact envelope",
  "The lower and upper envelopes of a series at each index are the minimum and maximum over the window of the given radius clipped to the series, and LB_Keogh of a query is the root of the summed squared excursions of the query outside those envelopes. "
  "For equal-length univariate series it never exceeds DTW under the Sakoe-Chiba constraint of the same radius.",
  ["inputs", "configurations"], "all pairs over a small alphabet with lengths 1..5, all radii, explicit and implicit envelopes, backends",
  "A bound must hold for every pair; tests check single values.",
  [M + "dtw_variants.py"], [("lb_envelope / lb_keogh", M + "dtw_variants.py")],
  ["lb_envelope", "lb_keogh"])
p("C09", "The global alignment kernel sums over all alignments and is a normalised kernel",
  "The unnormalised global alignment kernel is the sum over all warping paths of the product of the local kernels k/(2-k) with Gaussian k; the kernel itself is that value divided by the geometric mean of both self-values. "
  "Kernel matrices over any set of series are symmetric with unit diagonal, entries in [0,1], positive semi-definite, equal entry by entry to the pairwise kernel, and independent of the number of jobs.",
  ["inputs", "configurations", "schedules"], "all pairs of small series over an alphabet, several bandwidths, all small datasets, numbers of jobs",
  "Sums over all alignments and kernel axioms quantify over all inputs; tests check fixed values.",
  [M + "_gak.py", M + "softdtw_variants.py"], [("gak recursion, normalisation and matrix assembly", M + "_gak.py")],
  ["unnormalized_gak", "gak", "cdist_gak", "sigma_gak"])
p("C10", "Every pairwise matrix holds the pairwise values, whatever the parallel schedule",
  "For every matrix function, entry (i, j) is the value of the corresponding two-series function on series i and j, for one dataset (symmetric) or two, with series of different lengths, and with any further metric parameters. "
  "The matrix is bit-for-bit the same for every number of jobs and for every order in which the parallel tasks run and complete.",
  ["schedules", "inputs", "configurations"], "all datasets of up to 4 series from a pool of variable-length series, every matrix function, n_jobs None/1/2/-1, and every execution/completion order of the submitted tasks",
  "Tests run one thread schedule of one dataset; the guarantee is over all completion orders and index layouts.",
  [M + "utils.py", M + "_dtw.py", M + "_soft_dtw.py", M + "_gak.py", M + "_frechet.py", M + "ctw.py"],
  [("task fan-out and triangle assembly", M + "utils.py"), ("per-metric wrappers", M + "_dtw.py")],
  ["cdist_dtw", "cdist_ctw", "cdist_frechet", "cdist_gak", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_sax"])
p("C11", "Measures depend only on the series' values, and never modify their inputs",
  "Metrics, transforms and predictions give the same result whether a series is passed as list, integer or float array, one- or two-dimensional array, non-contiguous view, or padded with trailing NaNs to any longer length. "
  "No library call modifies arrays or containers passed to it.",
  ["inputs", "configurations"], "all public measures and estimators on all representation pairs of a pool of series and datasets, with read-only and snapshot-compared inputs",
  "Tests use one representation per call and rarely look at the inputs afterwards.",
  ["tslearn/utils/utils.py", "tslearn/utils/cast.py", M, "tslearn/preprocessing/preprocessing.py"],
  [("to_time_series / to_time_series_dataset", "tslearn/utils/utils.py")],
  ["all public measures", "estimator fit/transform/predict"])
p("C12", "The NumPy and PyTorch backends compute the same thing",
  "Every measure that accepts a backend returns, for the PyTorch backend, values and paths' costs equal (to floating-point accuracy) to those of the NumPy backend on the same data, for all of its parameters, and results stay of the requested backend's type. "
  "Where a PyTorch value is differentiable, its gradient matches the finite-difference gradient of the NumPy value.",
  ["inputs", "configurations"], "all small pairs over an alphabet and every measure and parameter combination supporting backends",
  "Both backends have separate implementations; agreement on a few test series says nothing of the remaining inputs and parameter combinations.",
  ["tslearn/backend/numpy_backend.py", "tslearn/backend/pytorch_backend.py", M],
  [("backend dispatch", "tslearn/backend/backend.py")],
  ["be= argument of metrics and utilities"])
p("C13", "Dataset conversions and text formats round-trip without losing values",
  "Building a dataset from lists of series keeps every value at its place, pads only with trailing NaNs, and reports each series' true length; writing a dataset to text and reading it back, and converting to and from each supported third-party layout, returns the same values, lengths and dimensions. "
  "Malformed inputs are rejected rather than silently reshaped.",
  ["inputs"], "all datasets of up to 3 series with lengths 0..3 and dims 1..2 over an alphabet with extreme floats, every supported format and format string",
  "Tests round-trip a few hand-made datasets; the guarantee covers all shapes and values.",
  ["tslearn/utils/utils.py", "tslearn/utils/cast.py"],
  [("padding and size detection", "tslearn/utils/utils.py"), ("format casts", "tslearn/utils/cast.py")],
  ["to_time_series_dataset", "ts_size", "save_time_series_txt", "load_time_series_txt", "to_*_dataset", "from_*_dataset"])
p("C14", "Saving and reloading a model preserves its behaviour in every format",
  "For every estimator that can be saved (HDF5, JSON, pickle), at any point of its life after fitting, the reloaded object has the same hyper-parameters and fitted attributes and gives the same predictions, transforms and distances as the saved one, and saving changes nothing in the saved object. "
  "Repeated save/load cycles and saving after refits or predictions preserve this too; saving to an existing HDF5 file is refused and leaves that file intact.",
  ["histories", "configurations", "fault_sequences"], "all operation histories up to a bound over {fit A, fit B, predict, save+load in each format} for every serialisable estimator and hyper-parameter variant, plus save-path faults",
  "Tests save once after one fit with default parameters; the guarantee is over histories, formats and parameter combinations.",
  ["tslearn/bases/bases.py", "tslearn/hdftools/hdftools.py", "tslearn/shapelets/shapelets.py"],
  [("to_/from_ hdf5, json, pickle", "tslearn/bases/bases.py"), ("recursive HDF5 layout", "tslearn/hdftools/hdftools.py")],
  ["to_hdf5/from_hdf5", "to_json/from_json", "to_pickle/from_pickle"])
p("C15", "An estimator's fit depends only on its parameters and data, not on its past",
  "Fitting an estimator gives the same result as fitting a fresh clone with the same hyper-parameters and data, whatever was called on it before (other fits, parameter changes, predictions, calls that failed). "
  "Neither fitting nor predicting ever changes hyper-parameters or user-supplied parameter dictionaries, and prediction never changes what later predictions return.",
  ["histories", "fault_sequences"], "all sequences up to a bound of {fit on dataset A/B, set a parameter, predict/transform, failing call}, for every estimator",
  "Tests call fit once per object; the state an estimator carries over between calls is only visible in histories.",
  ["tslearn/neighbors/neighbors.py", "tslearn/clustering", "tslearn/svm/svm.py", "tslearn/piecewise/piecewise.py", "tslearn/preprocessing", "tslearn/early_classification/early_classification.py", "tslearn/forecasting/_arima.py"],
  [("fit/predict of each estimator", "tslearn/*")],
  ["get_params", "fit", "predict", "transform", "kneighbors"])
p("C16", "Nearest-neighbour models agree with brute force over the metric",
  "For every supported metric and parameters, the neighbours returned for a query are the training series with the smallest values of that metric, sorted, with those values as distances; classification and regression are the (uniformly or inverse-distance) weighted vote or mean of exactly those neighbours. "
  "This holds for training and query series of different lengths, any number of jobs and querying the training set itself.",
  ["inputs", "configurations"], "all query/training combinations from pools of small series, every metric, n_neighbors, weights and n_jobs",
  "Tests check label outputs on one dataset; agreement with exhaustive search must hold for all inputs and metrics.",
  ["tslearn/neighbors/neighbors.py", M + "cysax.py"],
  [("distance precomputation and delegation", "tslearn/neighbors/neighbors.py")],
  ["KNeighborsTimeSeries.kneighbors", "KNeighborsTimeSeriesClassifier", "KNeighborsTimeSeriesRegressor"])
p("C17", "k-means labels, inertia, prediction and transform agree with the centroids",
  "After fitting time-series k-means with any metric, predicting the training set gives the fitted labels; every predicted label is a nearest centroid under the configured metric and parameters, and the transform holds the distances to all centroids. "
  "The reported inertia is that of the reported labels and centroids, and among several initialisations the one with the lowest inertia is kept.",
  ["inputs", "configurations", "schedules"], "all small datasets from a pool, explicit initial centroids in every choice, metrics, metric_params, max_iter, n_init and n_jobs",
  "Tests inspect one fit of one random dataset; consistency must hold at every iterate and parameter combination.",
  ["tslearn/clustering/kmeans.py", "tslearn/clustering/utils.py"],
  [("assignment/update loop and bookkeeping", "tslearn/clustering/kmeans.py")],
  ["TimeSeriesKMeans.fit/predict/transform", "labels_", "inertia_", "cluster_centers_"])
p("C18", "Kernel k-means, k-shape, DBSCAN and silhouette follow their definitions",
  "Kernel k-means assigns series to the cluster with the largest weighted average kernel similarity (distance 2 - 2 * that average) and reports the matching inertia; k-shape assigns to the centroid with the largest normalised cross-correlation for training and (z-normalised) new data alike; DBSCAN labels equal density clustering on the metric's distance matrix; the silhouette score equals the textbook formula on that matrix. "
  "Once converged, predicting the training data gives the fitted labels, and of several initialisations the one with the lowest inertia is kept.",
  ["inputs", "configurations"], "all small datasets from pools, every metric and parameter, with weights, multiple initialisations and n_jobs",
  "Tests check stored labels of one dataset; the definitions quantify over all datasets and parameters.",
  ["tslearn/clustering/kmeans.py", "tslearn/clustering/kshape.py", "tslearn/clustering/dbscan.py", "tslearn/clustering/utils.py", M + "cycc.py"],
  [("kernel distances", "tslearn/clustering/kmeans.py"), ("cross-correlation", M + "cycc.py"), ("dbscan wrapper", "tslearn/clustering/dbscan.py")],
  ["KernelKMeans", "KShape", "TimeSeriesDBSCAN", "silhouette_score"])
p("C19", "DBA barycenters never get worse and report their true cost",
  "Each expectation-maximisation DTW barycenter variant returns a barycenter of the requested size (or that of the initial one) whose cost, the weighted mean (normalised weights) of squared DTW values to the data, never increases with more iterations nor exceeds that of the initial barycenter; a cost reported with a barycenter is that barycenter's. "
  "Only relative weights matter, a weight of zero removes a series, a single series is its own barycenter, the stochastic variant follows the weighted subgradient steps, and the Euclidean barycenter is the weighted mean.",
  ["inputs", "configurations"], "all datasets of up to 3 small series from a pool, initialisations, weights, sizes, iteration counts and constraints",
  "Monotone descent for every dataset and iterate is not something a few stored averages settle.",
  ["tslearn/barycenters/dba.py", "tslearn/barycenters/euclidean.py", "tslearn/barycenters/utils.py"],
  [("assignment and update steps", "tslearn/barycenters/dba.py")],
  ["dtw_barycenter_averaging", "dtw_barycenter_averaging_subgradient", "euclidean_barycenter"])
p("C20", "The soft-DTW barycenter descends its own objective",
  "The soft-DTW barycenter has the requested or initial shape and a weighted soft-DTW objective never larger than at its initialisation, stationary to the solver's tolerance, for any weights, gamma and series of different lengths. "
  "Weights of zero remove series, and inputs are not modified.",
  ["inputs", "configurations"], "all datasets of up to 3 small series from a pool, initialisations, weights, gammas and iteration caps",
  "Tests check stored values for one dataset.",
  ["tslearn/barycenters/softdtw.py", M + "softdtw_variants.py"],
  [("objective and jacobian", "tslearn/barycenters/softdtw.py")],
  ["softdtw_barycenter"])
p("C21", "Scalers, resampler and imputer meet their stated post-conditions",
  "Min-max scaling maps every feature of every series (or of the dataset when not per-series) onto the requested range, mean-variance scaling gives the requested mean and deviation, resampling interpolates linearly on a uniform grid keeping both end points, and imputation fills exactly the missing samples by the selected rule; constant series stay finite. "
  "NaN padding stays NaN and never influences values, and inputs are left untouched.",
  ["inputs", "configurations"], "all small datasets over an alphabet including constant series and NaN patterns (all positions), every option of each transformer",
  "Tests check a few datasets; post-conditions must hold for every dataset, NaN pattern and option.",
  ["tslearn/preprocessing/preprocessing.py"],
  [("transformers", "tslearn/preprocessing/preprocessing.py")],
  ["TimeSeriesScalerMinMax", "TimeSeriesScalerMeanVariance", "TimeSeriesResampler", "TimeSeriesImputer"])
p("C22", "PAA, SAX and 1d-SAX represent, reconstruct and measure as defined",
  "PAA segments are the means of the segments, SAX symbols are the Gaussian-quantile bins of those means and 1d-SAX adds the binned slope of each segment's least-squares line; reconstruction returns each segment's symbol values over the segment. "
  "When the segments cover the series exactly, PAA and SAX distances never exceed the Euclidean distance of the (scaled) series; 1d-SAX distance equals the Euclidean distance of the (scaled) reconstructions; distances are symmetric with zero self-distance.",
  ["inputs", "configurations"], "all small series over an alphabet, every segment count, alphabet size, scaling flag and dims 1..2",
  "Lower bounds and reconstruction identities quantify over all series and parameters.",
  ["tslearn/piecewise/piecewise.py", M + "cysax.py", M + "sax.py"],
  [("segment means, breakpoints, distances", M + "cysax.py")],
  ["PiecewiseAggregateApproximation", "SymbolicAggregateApproximation", "OneD_SymbolicAggregateApproximation", "cdist_sax"])
p("C23", "Streaming early classification equals batch early classification",
  "Fed sample by sample or in chunks of any sizes, the streaming predictor gives at each point the label (or probabilities) and remaining delay that early_predict gives for exactly the samples received so far, and none before the minimum time; the first point of zero delay, or the end, is the decision that predict_class_and_earliness gives for the full series. Interleaved streams never influence each other, and chunks of a wrong shape are ignored with a warning. "
  "Delays minimise the documented expected cost (cluster probabilities, class frequencies and confusion rates estimated on the training data), decision times lie between the minimum time and the series length, and the early-classification cost is the stated combination of error and earliness.",
  ["histories", "inputs"], "all chunkings of series up to length 6, all interleavings of two streams, rejected inputs in between, over several fitted models",
  "Tests feed a couple of streams one way; the contract is over all feeding histories.",
  ["tslearn/early_classification/early_classification.py", "tslearn/generators/generators.py"],
  [("generator state machine", "tslearn/early_classification/early_classification.py")],
  ["NonMyopicEarlyClassifier.predict*", "get_generator/streaming predictors", "early_classification_cost"],
  state=[("stream position", "samples received so far and decision taken", "tslearn/early_classification/early_classification.py")])
p("C24", "VARIMA forecasts follow the fitted recursion",
  "Forecasts of a fitted VARIMA model are those of its differenced vector ARMA recursion with the fitted coefficients, extended one step at a time and integrated back to the original scale for any differencing order; forecasting h steps is a prefix of forecasting more. "
  "Predictions for a series do not depend on the other series in the batch or on its NaN padding, and passing the training series gives the forecasts of the fitted data. Pure autoregressive models of one series are least-squares fits, exactly autoregressive data is continued exactly, and more iterations never lower the likelihood; "
  "AutoVARIMA keeps a model whose information criterion no neighbouring order improves.",
  ["inputs", "configurations"], "all small orders (p, d, q), dims 1..2, horizons, and small datasets incl. variable lengths",
  "Tests check shapes and a few fits; agreement with the recursion must hold for all orders and series.",
  ["tslearn/forecasting/_arima.py"], [("prediction recursion and un-differencing", "tslearn/forecasting/_arima.py")],
  ["VARIMA.predict", "AutoVARIMA.predict"])
p("C25", "The matrix profile holds true nearest-neighbour subsequence distances",
  "For every series, entry i of the matrix profile is the smallest Euclidean distance (z-normalised when scaling is on) between subsequence i and any subsequence outside the trivial-match zone around i, for every implementation choice; entries beyond a shorter series' own subsequences, or without any admissible match, are infinite. "
  "The profile's shape follows the series length and the subsequence length, and series in a batch do not influence each other.",
  ["inputs", "configurations"], "all series over an alphabet with lengths up to 8, all subsequence lengths, scaling on/off, implementations",
  "Tests compare two implementations on one dataset.",
  ["tslearn/matrix_profile/matrix_profile.py"], [("profile computation", "tslearn/matrix_profile/matrix_profile.py")],
  ["MatrixProfile.transform"])
p("C26", "Learned shapelets are measured and located by true minimal distance",
  "For a fitted shapelet model, each transform feature is the smallest mean squared distance between that shapelet and any window of the series inside its true length, and the reported location is a window attaining it. "
  "Predicted probabilities are a distribution whose arg-max is the predicted label, and the result for a series does not depend on its padding or batch.",
  ["inputs", "configurations"], "all small series over an alphabet, shapelet values set explicitly, several shapelet sizes, scaling, dims, variable lengths",
  "Tests check one fit; minimality over every window must hold for all series and shapelets.",
  ["tslearn/shapelets/shapelets.py"], [("distance and pooling layers", "tslearn/shapelets/shapelets.py")],
  ["LearningShapelets.transform", "LearningShapelets.locate", "LearningShapelets.predict_proba"])
p("C27", "Feature synchronisation interpolates every feature on the time base of the reference feature",
  "The feature synchroniser replaces every feature by its piecewise-linear interpolation at the time stamps of the reference feature (the given time stamps, or positions spread evenly from a common start to a common end), constant outside its own range. "
  "The reference feature is unchanged, the result has its length, series in a batch do not influence each other, inputs are not modified, and time stamps that do not increase or do not match the data are rejected.",
  ["inputs", "configurations"], "all combinations of feature lengths up to 5 with all small-alphabet contents, all references, all pairs of increasing time-stamp subsets of a grid, padded batches",
  "Tests check one dataset.",
  ["tslearn/preprocessing/_synchronizer.py"], [("interpolation of features", "tslearn/preprocessing/_synchronizer.py")],
  ["TimeSeriesFeatureSynchronizer"])
p("C28", "Forecast error measures equal their definitions for every weighting and aggregation",
  "Mean absolute, mean squared and mean absolute scaled errors equal their textbook formula for every weighting of series, time stamps and features and every aggregation option, whatever the form of the inputs. "
  "They are zero exactly for perfect forecasts and do not modify their inputs; the scaling factor is the mean absolute seasonal difference over the samples of the training series, which may have different lengths.",
  ["inputs", "configurations"], "all small truth/forecast pairs over an alphabet, all weightings over a weight alphabet, all training shapes and seasonal periods up to a bound",
  "Tests check one example per function.",
  [M + "performance.py"], [("aggregation", M + "performance.py")],
  ["mae", "mse", "mase"])
p("C29", "Canonical time warping alternates optimal alignments and projections",
  "Canonical time warping returns a legal warping path inside the constraint region that is optimal in the returned projection; that projection is the canonical correlation analysis of an optimal alignment reached before it, starting from the alignment of the first features. "
  "The score is the alignment cost of the returned path, identical series have score zero, and neither trailing padding nor the form of the input matters; the matrix variant holds the pairwise values and is symmetric with zero diagonal.",
  ["inputs", "configurations"], "all pairs of small univariate series over an alphabet and pools of multivariate ones, iteration caps, components, constraints; the alternation as a nondeterministic transition system over all optimal paths",
  "Tests check loose bounds on two examples.",
  [M + "ctw.py"], [("alternation of CCA and DTW", M + "ctw.py")],
  ["ctw", "ctw_path", "cdist_ctw"])
p("C30", "Concurrent predictions on one fitted model do not interfere",
  "When several threads call prediction, transform or neighbour queries on the same fitted estimator at the same time, every call returns what it returns when run alone, no call fails, and the estimator is unchanged afterwards; the same holds for concurrent calls of the functional interface. "
  "This holds for every interleaving of the calls.",
  ["schedules"], "all interleavings with up to 2 preemptions (line granularity inside the library) of 2 concurrent calls on every fitted estimator",
  "Tests never share an estimator between threads; races need particular interleavings.",
  ["tslearn/neighbors/neighbors.py", "tslearn/clustering", "tslearn/piecewise/piecewise.py", "tslearn/svm/svm.py"],
  [("state touched during prediction", "tslearn/neighbors/neighbors.py")],
  ["predict", "transform", "kneighbors"])
p("C31", "SVM and MLP models equal their scikit-learn counterparts on the series",
  "A time-series SVM behaves exactly like the scikit-learn SVM trained on the kernel matrix of the series (global alignment kernel, or a standard kernel on flattened series), in predictions, decision values, probabilities and support vectors; the MLP behaves like scikit-learn's on flattened series. "
  "This includes new series of other lengths, sample weights and the stored bandwidth.",
  ["inputs", "configurations"], "all small labelled datasets from a pool, kernels, gammas, weights, classification and regression",
  "Tests check shapes and one accuracy.",
  ["tslearn/svm/svm.py", "tslearn/neural_network/neural_network.py"], [("kernel preprocessing", "tslearn/svm/svm.py")],
  ["TimeSeriesSVC", "TimeSeriesSVR", "TimeSeriesMLPClassifier", "TimeSeriesMLPRegressor"])
p("C32", "The dataset cache never serves wrong or partial data, whatever the download does",
  "Loading a dataset returns exactly its archive's train and test series and labels, or four times None with a RuntimeWarning. "
  "A failed, interrupted, corrupted or incomplete download, a crash or a failing file operation never makes later calls return partial, mixed or wrong data, nor keeps a later download from succeeding, nor touches other datasets; only an archive published with unparsable files may be kept. "
  "With caching on, a dataset already present is served without downloading and with caching off it is downloaded each time; the list of cached datasets holds those present, and the bundled datasets are returned unchanged.",
  ["fault_sequences", "histories", "crash_points"], "all histories up to a bound of loads with every download outcome (ok, network error, truncated/corrupt/incomplete archive, unparsable file) at each step, including a crash in the middle of extraction",
  "Tests have no fault injection and need the network.",
  ["tslearn/datasets/ucr_uea.py", "tslearn/datasets/datasets.py", "tslearn/datasets/cached.py"],
  [("download, extract, parse", "tslearn/datasets/ucr_uea.py")],
  ["UCR_UEA_datasets.load_dataset", "list_cached_datasets"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
