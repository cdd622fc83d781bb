#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Stream simulators deliver every instance exactly once, label attached",
  "Iterating a data set through the array or dataframe streamer yields exactly one item per row: without shuffling the rows in their original order, with shuffling a permutation of the rows, and when labels are given each row is always paired with its own label. "
  "A label sequence whose length differs from the number of rows is rejected with an AssertionError before anything is yielded, and the caller's data is not modified.",
  ["inputs", "configurations"], "all data sets (any number of rows, any cell values, duplicates included), all label sequences, shuffle on or off, every outcome of the shuffle",
  "The tests iterate a handful of 2-3 row arrays, and with shuffling only check set membership of a few rows; they cannot cover every length, every permutation or duplicated rows.",
  ["pysad/utils/array_streamer.py", "pysad/utils/pandas_streamer.py", "pysad/utils/__init__.py", "pysad/core/base_streamer.py"],
  [("index list, in-place shuffle of indices, generator loop", "ArrayStreamer.iter"), ("to_numpy + delegation", "PandasStreamer.iter"), ("pairing helper", "_iterate")],
  observe=["ArrayStreamer.iter", "PandasStreamer.iter", "_iterate"])

p("C02", "Batch model calls equal the instance-by-instance protocol",
  "For every detector that implements the one-instance fit and score operations, the batch fit, score and fit-and-score calls leave the detector in the same state and return the same scores, in row order, as calling the one-instance operations row by row with the row's own label (or None when no labels are given). "
  "Fitting and scoring one instance in a single call fits that instance (with its label) exactly once and then scores it, and batch fit returns the detector itself.",
  ["inputs", "programs", "histories"], "all detectors implementing the interface (arbitrary state, arbitrary effect of fit and of score on it), all data sets of any number of rows, with or without labels",
  "The tests use one trivial concrete detector and 2-3 rows; order, label pairing and result placement have to hold for every detector, every length and every state.",
  ["pysad/core/base_model.py", "pysad/utils/__init__.py", "pysad/utils/array_streamer.py"],
  [("loops over _iterate", "BaseModel.fit/score/fit_score"), ("chaining", "BaseModel.fit_score_partial")],
  observe=["BaseModel.fit", "BaseModel.score", "BaseModel.fit_score", "BaseModel.fit_score_partial"])

p("C03", "Batch transformer and postprocessor calls equal the one-step protocol",
  "For every feature transformer and every score postprocessor, the batch fit, transform and fit-transform calls leave the object in the same state and return the same results, row i of the output belonging to row i of the input, as calling the one-step operations on the rows (the scores) themselves in order. "
  "The combined one-step call fits exactly once and then transforms the same item, batch fit returns the object itself, and the output has the declared number of columns (as many as the input when none is declared).",
  ["inputs", "programs", "histories"], "all transformers and postprocessors implementing the one-step operations (arbitrary state and effects), all inputs of any number of rows and columns",
  "The existing tests never run the batch methods of the base classes on a transformer that records its arguments, and only check output shapes elsewhere.",
  ["pysad/core/base_transformer.py", "pysad/core/base_postprocessor.py", "pysad/utils/__init__.py"],
  [("loops over _iterate", "BaseTransformer.fit/transform/fit_transform"), ("loops over _iterate", "BasePostprocessor.fit/transform/fit_transform")],
  observe=["BaseTransformer.fit", "BaseTransformer.transform", "BaseTransformer.fit_transform", "BasePostprocessor.fit", "BasePostprocessor.transform", "BasePostprocessor.fit_transform"])

p("C04", "A sliding window holds exactly the most recent items in order",
  "After any sequence of updates, a window of size w holds exactly the min(n, w) most recently added items in arrival order, and an unlimited window holds every item added, in order. "
  "Reading a window does not change it.",
  ["inputs", "histories", "configurations"], "all window sizes w >= 1, all update sequences of any length, items of any type (duplicates included)",
  "The tests push at most 1000 distinct integers into windows of a few sizes.",
  ["pysad/utils/window.py"],
  [("append then drop the head when too long", "Window.update"), ("append", "UnlimitedWindow.update")],
  state=[("window", "retained items, oldest first", "Window.window")], observe=["Window.get"])

p("C05", "Every statistic meter reports the exact statistic of the values it holds",
  "After any sequence of updates and of removals of values that are present, the count, sum, sum-of-squares, average, variance, minimum, maximum and median meters report exactly (up to floating-point rounding) that statistic of the multiset of values added and not yet removed; with no value held, count and sums are 0, maximum is -inf and minimum is +inf. "
  "Update and remove return the meter itself, and reading a meter any number of times never changes what it later reports.",
  ["inputs", "histories"], "all interleavings of update / remove (of a present value) / get of any length, all finite values including duplicates and negative numbers",
  "The tests run one fixed pattern (update, remove the same value, update again) on 100 uniform values and on zeros; removals of older values, duplicates, repeated reads and emptied meters are never reached.",
  ["pysad/statistics/count_meter.py", "pysad/statistics/sum_meter.py", "pysad/statistics/sum_squares_meter.py", "pysad/statistics/average_meter.py", "pysad/statistics/variance_meter.py", "pysad/statistics/max_meter.py", "pysad/statistics/min_meter.py", "pysad/statistics/median_meter.py"],
  [("running sums and counts", "SumMeter, SumSquaresMeter, CountMeter, AverageMeter, VarianceMeter"), ("heap list plus cached extremum", "MaxMeter, MinMeter"), ("sorted list", "MedianMeter.get")],
  observe=["*.get"])

p("C06", "A running statistic covers exactly the last window_size values",
  "After any sequence of updates, a running statistic of any statistic type reports that statistic of exactly the min(n, window_size) most recent values; keyword arguments given to it reach the wrapped statistic. "
  "The absolute-value wrapper reports the absolute value of the wrapped statistic of the values it holds and forwards updates and removals unchanged; both return themselves from update.",
  ["inputs", "histories", "configurations", "programs"], "all statistic classes obeying the update/remove/get contract, all window sizes >= 1, all update sequences of any length",
  "The tests use window size 25 and 100 values only; the eviction of the right value for every size and history (duplicates, negative values) is not reached.",
  ["pysad/statistics/running_statistic.py", "pysad/statistics/abs_statistic.py"],
  [("list of recent values and removal of the evicted value from the wrapped statistic", "RunningStatistic.update"), ("abs of wrapped value", "AbsStatistic.get")],
  state=[("window", "values currently counted", "RunningStatistic.window"), ("statistic", "wrapped statistic", "RunningStatistic.statistic")],
  observe=["RunningStatistic.get", "AbsStatistic.get"])

p("C07", "Postprocessors report the declared statistic of the fitted scores",
  "After any sequence of fitted scores the average, maximum and median postprocessors output that statistic of all fitted scores, and their running variants output it for the last window_size fitted scores; the z-score postprocessors output (score - mean) / standard deviation with mean and variance of all (or the last window_size) fitted scores. "
  "Fitting returns the postprocessor itself, and transforming never changes what later transforms return.",
  ["inputs", "histories", "configurations"], "all score sequences of any length, all window sizes >= 1, any interleaving of fit and transform steps",
  "The tests only check that output arrays have the same shape as the input.",
  ["pysad/transform/postprocessing/postprocessors.py", "pysad/transform/postprocessing/running_postprocessors.py"],
  [("one meter per statistic", "postprocessors.py, running_postprocessors.py")],
  observe=["*.transform_partial"])

p("C08", "Calibrators output the declared probability of the fitted scores",
  "The conformal calibrator outputs the fraction of the retained fitted scores (the last window_size, or all when not windowed) that are strictly greater than the given score; the Gaussian-tail calibrator outputs the normal cumulative probability of the score under the mean and variance of the retained scores (last window_size, or all fitted scores when running statistics are off), using standard deviation 1 when the variance is not positive. "
  "Both results always lie in [0, 1], the conformal one never increases and the Gaussian one never decreases as the score grows, and transforming does not change the calibrator.",
  ["inputs", "histories", "configurations"], "all score histories with at least one fitted score, all window sizes >= 1, both windowing modes, all finite query scores",
  "The tests only check shapes and the absence of NaN on 100 uniform scores that never exceed the window.",
  ["pysad/transform/probability_calibration/conformal_prediction.py", "pysad/transform/probability_calibration/gaussian_tail.py"],
  [("count over the window", "ConformalProbabilityCalibrator.transform_partial"), ("erfc of the standardised score", "GaussianTailProbabilityCalibrator.transform_partial/_qfunction")],
  observe=["*.transform_partial"])

p("C09", "Evaluation metrics score the complete recorded history",
  "After any sequence of updates, the precision, recall, ROC-AUC and PR-AUC metrics return the value of the corresponding scikit-learn metric on all recorded true labels and predictions, in order and correctly paired. "
  "The ROC-AUC metric raises ValueError exactly when fewer than two different true labels have been recorded; reading a metric never changes it.",
  ["inputs", "histories"], "all sequences of (label, prediction) updates of any length, reads interleaved anywhere",
  "The tests evaluate a few short label sequences, mostly perfect or perfectly wrong predictions that cannot expose lost, duplicated, reordered or swapped entries.",
  ["pysad/evaluation/metrics.py", "pysad/core/base_metric.py"],
  [("two parallel lists", "BaseSKLearnMetric.update"), ("delegation to sklearn", "_evaluate")],
  observe=["*.get"])

p("C10", "A windowed metric averages per-window scores of disjoint windows",
  "After n updates a windowed metric with window size w returns the plain average of the wrapped metric evaluated separately on each complete consecutive block of w updates, including the trailing incomplete non-empty block as one more block only when it is configured not to ignore it; before the first block completes it returns the wrapped metric of everything seen so far. "
  "Every block is evaluated by a new instance of the wrapped metric built with the same keyword arguments, update returns the metric itself, and reading does not change it.",
  ["inputs", "histories", "configurations", "programs"], "all wrapped metric classes, all window sizes >= 1, both settings of the flag, all update sequences of any length",
  "The tests have every window yield the same value (0 or 1) or only check the type of the result, so a wrong weight, boundary or carried-over block is invisible.",
  ["pysad/evaluation/windowed_metric.py"],
  [("step counter modulo window size, average meter of block scores", "WindowedMetric.update/get")],
  state=[("step", "number of updates", "WindowedMetric.step"), ("score_meter", "scores of complete blocks", "WindowedMetric.score_meter")],
  observe=["WindowedMetric.get"])

p("C11", "Batch-detector wrappers train on exactly the promised instances",
  "The one-fit wrapper trains one detector instance, built with the given keyword arguments, once on the initial data (and labels, if given) and scores every instance with it, unaffected by later fitting. "
  "The reference-window wrapper always scores with a newly built detector trained on exactly this data: while no initial window was given and fewer than window_size instances were fitted, all instances so far; otherwise, as of the most recent moment the number of fitted instances was a multiple of sliding_size (and at least window_size when there is no initial window), the last window_size instances of initial window plus stream, before which it stays on the initial window or on the first window_size-1 instances; labels, when used, stay aligned with their instances.",
  ["inputs", "histories", "configurations", "programs"], "all detector classes, all window and sliding sizes (window_size >= 2 without an initial window), with or without initial window and labels, all streams of any length",
  "The tests only check that a score comes back, plus two fixed histories of 2 and 8 instances for (4, 2); alignment of instances and labels and the trained content for other sizes are never inspected.",
  ["pysad/models/integrations/reference_window_model.py", "pysad/models/integrations/one_fit_model.py", "pysad/models/integrations/pyod_model.py", "pysad/models/iforest_asd.py"],
  [("current/reference window lists, modulo test, concatenation and cut", "ReferenceWindowModel.fit_partial"), ("fit once", "OneFitModel.__init__"), ("model re-creation with kwargs", "PYODModel.reset_model")],
  state=[("reference_window_X/y", "training data of the current detector", "ReferenceWindowModel"), ("cur_window_X/y", "instances since the last slide", "ReferenceWindowModel")],
  observe=["ReferenceWindowModel.score_partial", "OneFitModel.score_partial"])

p("C12", "Scoring and transforming are read-only and inputs are never modified",
  "Scoring an instance with a detector, or transforming with a postprocessor, calibrator, ensembler, scaler, projector or decomposer, never changes the object: any later fit, score or transform behaves as if that call had not happened (documented exceptions: the label-queue test model, the random model, the k-NN conformal detector, the random cut forest and the local-outlier-probability detector). "
  "No detector, transformer, postprocessor, statistic or metric ever modifies an array passed in by the caller, and every detector's one-instance fit returns the detector itself.",
  ["inputs", "histories", "programs"], "all detectors and transformers of the package outside the named exceptions, all reachable states, all inputs",
  "Tests call fit and score alternately and never compare the behaviour with and without an extra scoring call, nor check the caller's arrays afterwards.",
  ["pysad/models", "pysad/transform", "pysad/statistics", "pysad/evaluation"],
  [("score_partial / transform_partial implementations assign nothing", "all models and transformers"), ("values are copied before modification", "HalfSpaceTrees, SeasonalTrendDecomposer")],
  observe=["score_partial", "transform_partial", "caller arrays"])

p("C13", "Simple detectors compute their documented score",
  "After any history, the standard-deviation detector scores (x - mean or median) / (standard deviation + 1e-10) over all fitted values, the median-absolute-deviation detector scores (x - median of all fitted values) / (b * median of each fitted value's deviation from the median at its arrival + 1e-10) - as absolute values when so configured - and the exact-STORM detector scores the fraction of the retained instances other than the newest that lie strictly within the radius of x (0 when there are none). "
  "The perfect detector returns fitted labels in first-in first-out order and rejects a missing label, and the null detector always returns 0.5.",
  ["inputs", "histories", "configurations"], "all value sequences of any length, all window sizes, radii, scale factors and flags",
  "The tests only check output shapes for these detectors, plus one constant series for the standard-deviation detector.",
  ["pysad/models/standard_absolute_deviation.py", "pysad/models/median_absolute_deviation.py", "pysad/models/exact_storm.py", "pysad/models/perfect_model.py", "pysad/models/null_model.py"],
  [("meters", "StandardAbsoluteDeviation, MedianAbsoluteDeviation"), ("window and distance count", "ExactStorm"), ("queue", "PerfectModel")],
  observe=["*.score_partial"])

p("C14", "Half-space trees count window masses exactly and score from them",
  "In every tree, while the first window is being filled each node's reference mass is the number of fitted instances routed through it, and afterwards it is the number of instances of the last complete block of window_size fitted instances routed through it; an instance is routed right exactly when its split feature exceeds the split value, down to the maximum depth. "
  "The score of an instance is minus the sum, over all trees and all nodes on its route, of reference mass times 2 to the power of the node's depth; every node splits its feature range in half.",
  ["inputs", "histories", "configurations"], "all streams of any length, all feature ranges, window sizes, depths and numbers of trees, every outcome of the random feature choices",
  "Tests only run the model on 150 one-dimensional points and look at the output shape.",
  ["pysad/models/half_space_trees.py"],
  [("recursive mass update", "HalfSpaceTrees._update_mass"), ("mass hand-over at window end", "HalfSpaceTrees._update_model"), ("recursive score", "HalfSpaceTrees._score_tree"), ("recursive construction", "HalfSpaceTrees._build_single_hs_tree")],
  observe=["HalfSpaceTrees.score_partial"])

p("C15", "xStream scores from the bin counts of the reference window only",
  "For every chain and level, the count consulted by scoring is the number of fitted instances that fell into the same bin, counted over the instances so far while the first window fills and over the last complete window of window_size instances afterwards; the instances of the unfinished window do not influence it. "
  "The score is minus the mean over chains of the minimum over levels d = 1.. of log2(1 + count) + d, with bins computed identically in fitting and scoring from the projected instance and the chain's current ranges, and ranges are half the per-component spread of the last complete window (1 where that is at most 0.0001).",
  ["inputs", "histories", "configurations"], "all streams of any length, all window sizes, depths, chain and component numbers, every outcome of the random draws",
  "Tests only look at the shape of the scores of 150 one-dimensional points.",
  ["pysad/models/xstream.py"],
  [("window hand-over", "xStream.fit_partial"), ("bin index recursion and sketch update", "_Chain.fit"), ("bin lookup", "_Chain.bincount"), ("score", "_Chain.score, _HSChains.score")],
  observe=["xStream.score_partial"])

p("C16", "RS-Hash keeps exponentially decayed bin weights",
  "For every component, fitting an instance looks up the weight of the instance's bin (0 if never seen) decayed by 2 to the power of minus decay times the number of instances since that bin was last hit, and then stores that decayed weight plus one; weights of all other bins are unchanged. "
  "The reported score is the mean over components of the logarithm of one plus the smallest decayed weight over the hash tables before the increment, is never negative, and repeated scoring returns the score of the last fitted instance.",
  ["inputs", "histories", "configurations"], "all streams of any length, all decay values, component and table counts, every outcome of the random draws",
  "Tests only look at the shape of the scores of 150 one-dimensional points.",
  ["pysad/models/rs_hash.py"],
  [("timestamped sketch dictionary", "RSHash.fit_partial")],
  observe=["RSHash.score_partial"])

p("C17", "Seasonal ESD scores the newest value within its window",
  "The seasonal ESD detectors score 0 until window_size values are in the window and otherwise the generalized-ESD test statistic of the newest value when that value is among the detected anomalies and 0 when it is not; the detected anomalies are the first r removed extremes, r being the largest number of removals whose statistic exceeds its critical value, never more than the configured maximum. "
  "Scoring a value without fitting it gives the same score that fitting and scoring it would give and leaves the detector unchanged; the modified-STL transformer's residual is the value minus the seasonal component minus the window median, 0 until two periods of values are available, with the same agreement between its separate and combined calls.",
  ["inputs", "histories", "configurations"], "all value sequences of any length, all valid configurations",
  "The tests check a few synthetic series with one obvious spike.",
  ["pysad/models/seasonal_esd.py", "pysad/transform/preprocessing/modified_stl_residual.py"],
  [("generalized ESD loop and cut at the last exceedance", "SeasonalESD._esd"), ("candidate window", "SeasonalESD._candidate_window, ModifiedSTLResidualTransformer._candidate_values")],
  observe=["SeasonalESD.score_partial", "SeasonalESD.fit_score_partial", "ModifiedSTLResidualTransformer.*"])

p("C18", "The seasonal-trend decomposer removes exact rolling trend and seasonality",
  "After any sequence of fitted vectors, a transform returns the vector minus the mean of the last trend_window fitted vectors minus the average, over the past fitted steps at the same position in the season that had a full trend window, of the vector minus the trend at that step (0 when there is none). "
  "The combined fit-and-transform call changes the state exactly as fitting does and subtracts the trend and seasonal estimates that include the new vector.",
  ["inputs", "histories", "configurations"], "all vector sequences of any length and dimension, all season lengths and trend windows >= 1",
  "The tests check one repeating pattern of three values, where residuals are zero and many errors cancel.",
  ["pysad/transform/preprocessing/seasonal_trend_decomposer.py"],
  [("bounded deque, per-phase sums and counts", "SeasonalTrendDecomposer.fit_partial/fit_transform_partial")],
  observe=["SeasonalTrendDecomposer.transform_partial", "SeasonalTrendDecomposer.fit_transform_partial"])

p("C19", "KitNET respects its training phases and partitions the features",
  "The KitNET detector learns its feature map from exactly the first grace_feature_mapping + 1 fitted instances, then trains its autoencoders on exactly the next grace_anomaly_detector instances, and from then on fitting no longer trains anything; it scores 0 as long as the feature map is not learned. "
  "The learned feature map assigns every feature to exactly one autoencoder and no autoencoder gets more than max_size_ae features.",
  ["inputs", "histories", "configurations"], "all streams of any length, all grace periods and maximum sizes, every clustering outcome",
  "The test never leaves the default grace period of 50000 instances, so neither the map nor the autoencoders are ever reached.",
  ["pysad/models/kitnet.py", "pysad/models/kitnet_model/KitNET.py", "pysad/models/kitnet_model/corClust.py", "pysad/models/kitnet_model/dA.py"],
  [("instance counter against grace periods", "KitNET.process/train"), ("recursive dendrogram split", "corClust.__breakClust__")],
  observe=["KitNet.fit_partial", "KitNet.score_partial"])

p("C20", "Probation periods and score ranges of the univariate window detectors",
  "The k-NN conformal detector scores exactly 0.0 until probationary_period instances (and one full 19-value lag vector) were fitted and afterwards always a value in [0, 1]; the number of retained training vectors and of calibration scores stays constant from then on. "
  "The relative-entropy detector scores 0 until window_size instances were fitted and afterwards the index of the stored reference distribution with the smallest test statistic below the threshold, or -1 when none is below it, judged on exactly the last window_size instances.",
  ["inputs", "histories", "configurations"], "all value sequences of any length, all probation periods large enough for the neighbour count, all window sizes and bin numbers",
  "The tests only look at the shape of the scores of 150 uniform values.",
  ["pysad/models/knn_cad.py", "pysad/models/relative_entropy.py"],
  [("record counter, training/calibration queues", "KNNCAD.fit_partial"), ("window slice and histogram", "RelativeEntropy.fit_partial"), ("minimum search", "RelativeEntropy._get_agreement_hypothesis")],
  observe=["KNNCAD.score_partial", "RelativeEntropy.score_partial"])

p("C21", "The random cut forest retains exactly the most recent instances",
  "After any number of fitted instances, every tree of the random cut forest holds exactly the min(n, tree_size) most recently fitted instances, each under its own arrival index. "
  "Scoring an instance leaves the set of retained instances of every tree unchanged and returns the mean over the trees of the instance's collusive displacement.",
  ["inputs", "histories", "configurations"], "all streams of any length (duplicates included), all tree sizes and numbers of trees",
  "The test fits 150 points with tree size 256, so nothing is ever forgotten.",
  ["pysad/models/robust_random_cut_forest.py"],
  [("forget before insert", "RobustRandomCutForest.fit_partial"), ("temporary insertion", "RobustRandomCutForest.score_partial")],
  state=[("forest", "trees with their leaves by arrival index", "RobustRandomCutForest.forest")],
  observe=["RobustRandomCutForest.score_partial", "forest"])

p("C22", "Streamhash projection is one fixed sparse linear map",
  "The streamhash projector maps a vector x to exactly num_components numbers, the k-th being the sum over features i of x_i times a coefficient that depends only on k and i; every coefficient is 0 or plus or minus sqrt(1/density)/sqrt(num_components), minus when the normalised hash is at most density/2, plus when it is at most density. "
  "The same vector is always mapped to the same result, whatever was fitted or transformed before and in every projector with the same parameters.",
  ["inputs", "histories", "configurations"], "all vectors of any dimension, all numbers of components >= 1, all densities in (0, 1]",
  "The test only checks the output shape of one data set for 2, 50 and 250 components.",
  ["pysad/transform/projection/streamhash_projector.py"],
  [("hash-derived coefficient matrix", "StreamhashProjector.transform_partial/_hash_string")],
  observe=["StreamhashProjector.transform_partial"])

p("C23", "Ensemblers and instance scalers compute their declared combination",
  "For any vector of detector scores, the average (weighted when weights are given), maximum, median, average-of-maximum and maximum-of-average ensemblers return the corresponding PyOD combination of exactly these scores with exactly the configured weights, bucket number, method and bootstrap setting, and fitting them changes nothing. "
  "The identity scaler returns its input, the standard scaler returns (x - mean of x) / standard deviation of x, and the unit-norm scaler returns x divided by its p-norm for the configured power.",
  ["inputs", "configurations"], "all score vectors of any length, all weights and parameters, all feature vectors of any dimension",
  "Tests only check output shapes and one standard normalisation.",
  ["pysad/transform/ensemble/ensemblers.py", "pysad/transform/preprocessing/identity_scaler.py", "pysad/transform/preprocessing/instance_standard_scaler.py", "pysad/transform/preprocessing/instance_unit_norm_scaler.py"],
  [("delegation to PyOD with stored parameters", "*ScoreEnsembler._combine"), ("per-instance normalisation", "Instance*Scaler.transform_partial")],
  observe=["*.transform_partial"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
