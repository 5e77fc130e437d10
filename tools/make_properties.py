"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))


CL, RG, MM, BU, PC, UT, DS, SP, CO = ["mlpaper/%s.py" % f for f in
    ("classification", "regression", "mlpaper", "boot_util", "perf_curves", "util", "data_splitter", "sciprint", "constants")]

prop("C01", "Classification decisions are Bayes optimal and scored as taken",
 "For every matrix of predictive log probabilities and every finite loss matrix (any number of labels and actions, any sign), the decision for each data point is an action whose expected loss under that point's predictive distribution is minimal. The hard loss of the point is the loss matrix entry at (true label, that action), and without a loss matrix it is the zero-one loss.",
 ["inputs"], "all predictive distributions (ties, zero probabilities, one label), loss matrices, label dtypes",
 "the tests compare one random 0-1 case; rectangular, negative, tied and zero-probability problems are unbounded",
 [CL], [("decision and hard loss", CL + ":hard_loss_decision,hard_loss")], ["return values of the decision and hard loss functions, direct and internal calls"])

prop("C02", "Log, Brier and spherical losses equal their definitions",
 "For every valid predictive distribution and label vector (integer or boolean, zero probabilities allowed, one label allowed), the log, Brier and spherical losses of each data point equal their mathematical definitions, both raw and rescaled. Rescaled, a perfect forecast gets 0 and a uniform forecast over two or more labels gets 1, and no forecast has a lower expected loss than the true distribution.",
 ["inputs"], "all label vectors and normalized log probability matrices",
 "the tests sample a few random matrices with moderate probabilities",
 [CL], [("loss functions", CL + ":log_loss,brier_loss,spherical_loss")], ["return values of the three losses, direct and internal calls"])

prop("C03", "Classification loss table holds each method's renormalized loss",
 "Each cell of the classification loss table is that metric's loss of that method's prediction on that data point, with rows indexed like the prediction table and columns labelled metric by method, whatever the order of methods, metrics and rows. Unless told that predictions are normalized, each predictive distribution is renormalized first, so scaling a method's probabilities never changes its losses. NaN predictions, label columns out of order and label vectors of the wrong length are refused.",
 ["inputs", "configurations"], "all prediction tables (method names and order, label counts, row indices, normalization) and metric dictionaries",
 "the tests use one default-indexed table with fixed names",
 [CL, UT], [("table assembly", CL + ":loss_table"), ("renormalization", UT + ":normalize")], ["returned table; arguments received by recording metrics"])

prop("C04", "Regression losses and loss table equal their definitions",
 "Squared, absolute and Gaussian log losses equal their definitions for all finite targets, means and positive standard deviations. Each cell of the regression loss table is that metric's loss of that method's mean and standard deviation on that data point, with moments looked up by name, rows indexed like the prediction table and columns labelled metric by method.",
 ["inputs", "configurations"], "all finite targets, means, positive stds, integer or float; all table layouts",
 "there are no regression tests at all",
 [RG], [("loss functions", RG + ":square_loss,abs_loss,log_loss"), ("table", RG + ":loss_table")], ["loss return values; returned table; arguments received by recording metrics"])

prop("C05", "Classifier prediction tables: fit once on train, floored, normalized",
 "For any collection of estimators, the prediction table holds for every method and test point that method's own predictive log probabilities, floored at the given minimum and then renormalized so each distribution sums to one. Each estimator is fit exactly once on exactly the training data, is asked only about the test inputs, and its log probabilities are used when it provides them, otherwise the log of its probabilities.",
 ["inputs", "configurations", "histories"], "all data shapes and dtypes, estimators with either or failing log probability interfaces, floors",
 "get_pred_log_prob is not covered by the tests",
 [CL, UT], [("train/predict loop", CL + ":get_pred_log_prob"), ("normalization", UT + ":normalize")], ["fit/predict event log of recording estimators; returned table"])

prop("C06", "Regressor prediction tables: fit once on train, floored std",
 "For any collection of regressors, the prediction table holds for every method and test point that method's own predictive mean, and its predictive standard deviation floored at the given minimum. A regressor that cannot report a standard deviation gets standard deviation one (before flooring). Each regressor is fit exactly once on exactly the training data and asked only about the test inputs.",
 ["inputs", "configurations", "histories"], "all data sets, regressors with and without std, floors",
 "get_gauss_pred is not covered by the tests",
 [RG], [("train/predict loop", RG + ":get_gauss_pred")], ["fit/predict event log of recording regressors; returned table"])

prop("C07", "Checkpointed runs resume after a crash with identical results",
 "With a checkpoint directory, a run interrupted at any point (an estimator raising, or the process dying, during fit or predict of any method) can be rerun and yields exactly the table an uninterrupted run without checkpoints yields. Methods that had completed are not fit again, and checkpoints are never reused for different training data, test data or estimator settings, nor mixed up between methods.",
 ["crash_points", "fault_sequences", "histories"], "all crash points (method x stage x kind of crash), sequences of reruns with changed data, settings or floors, classification and regression",
 "no test exercises checkpointing, crashes or resumption",
 [CL, RG], [("joblib checkpointing", CL + ":get_pred_log_prob"), ("joblib checkpointing", RG + ":get_gauss_pred")], ["on-disk event log of fits across process deaths; returned tables"])

prop("C08", "Noise baselines predict the training distribution",
 "The classification noise baseline predicts for every test point the label frequencies of the training labels smoothed by the pseudo count, over all labels including unseen ones. The regression noise baseline predicts for every test point the mean and population standard deviation of the training targets. Neither depends on the inputs, and refitting replaces the previous fit entirely.",
 ["inputs", "histories"], "all training sets, label counts, pseudo counts, fit/predict sequences",
 "the baselines are only exercised indirectly on single data sets",
 [CL, RG], [("baselines", CL + ":JustNoise"), ("baselines", RG + ":JustNoise")], ["predictions after each fit"])

prop("C09", "Student-t error bars and p-values are exact and coherent",
 "For every sample the t error bar is the Student-t half width of the mean at the requested confidence and the t p-value is the two-sided one-sample p-value against mean zero, so the p-value is below one minus confidence exactly when zero lies outside the interval. With fewer than two points or non-finite values the error bar is infinite and the p-value one, and a constant sample has error bar zero with p-value one if the constant is zero and zero otherwise.",
 ["inputs", "configurations"], "all samples without NaN (any size, scale, ties, infinities) and all confidence levels",
 "tests check a few random normal samples at one or two confidence levels",
 [MM], [("t statistics", MM + ":t_test,t_EB")], ["return values, direct and internal calls"])

prop("C10", "Bernstein error bars and p-values are exact and coherent",
 "For every sample within its limits, the Bernstein error bar equals the empirical Bernstein bound at the requested confidence, and the p-value is the smallest level (capped at one) at which zero is excluded by that bound, so the two are exactly coherent. With fewer than two points or non-finite values the error bar is the full range and the p-value one; a zero or infinite range gives p-value one. Samples outside the limits are refused.",
 ["inputs", "configurations"], "all samples, limits and confidence levels",
 "tests sample a handful of random draws",
 [MM], [("Bernstein bound", MM + ":bernstein_test,bernstein_EB")], ["return values, direct and internal calls"])

prop("C11", "Bootstrap error bars and p-values of a mean follow their replicates",
 "The bootstrap error bar of a mean is the larger distance from the sample mean to the percentile interval of the resampled means at the requested confidence, and the bootstrap p-value is the two-sided percentile p-value of zero under resampled means; each replicate mean is that of a resample with replacement of the data. With fewer than two points or non-finite values the error bar is infinite and the p-value one; in a combined report both come from the same replicates.",
 ["inputs", "configurations", "histories"], "all samples, confidence levels, replicate counts and random streams",
 "tests check calibration of a few distributions statistically, not the exact relation to the replicates",
 [MM, BU], [("bootstrap of the mean", MM + ":boot_test,boot_EB,get_mean_EB_test"), ("weights", BU + ":boot_weights")], ["return values against the resampling weights observed during the call"])

prop("C12", "Bootstrap intervals, error bars and p-values are coherent",
 "For every collection of bootstrap estimates, the percentile interval consists of the order statistics just outside the two tail quantiles, the basic interval is its mirror image around the estimate, and the error bar is the smallest symmetric bar containing the percentile interval. The p-value is twice the smaller tail fraction including ties (at most one), and a reference whose p-value is at least one minus confidence always lies within the percentile interval.",
 ["inputs", "configurations"], "all bootstrap arrays (any size, ties, infinities, extra dimensions), references and confidence levels",
 "tests sample random normal arrays at a few sizes",
 [BU], [("interval construction", BU + ":percentile,basic,error_bar,significance,confidence_to_percentiles")], ["return values, direct and internal calls"])

prop("C13", "Bootstrap weights are fair resampling counts",
 "For every data size and replicate count, each replicate's weights are the counts of a uniform resample with replacement: non-negative integers summing to the number of points, raised to the minimum weight where one is given. Over replicates every point has mean weight one and the variance and covariances of the multinomial distribution, replicates are independent of each other, and the weights are reproducible from the random seed.",
 ["inputs", "histories"], "all data sizes, replicate counts, minimum weights and random streams",
 "tests check shape and row sums on few sizes",
 [BU], [("weights", BU + ":boot_weights")], ["returned weights, including those used internally"])

prop("C14", "Reported mean, error bar and p-value respect method and limits",
 "For every sample, confidence, method (t, Bernstein, bootstrap), minimum error bar and limits, the reported mean is the sample mean, the error bar is the method's error bar raised to the minimum and capped at the largest possible distance from the mean to the limits, and the p-value is the method's own. Reporting them jointly or separately agrees; samples outside their limits are refused.",
 ["inputs", "configurations"], "all samples, limits (finite, one-sided, infinite), minimum error bars, methods, confidence levels",
 "tests cover few random samples with matching limits",
 [MM], [("clipping", MM + ":clip_EB"), ("dispatch", MM + ":get_mean_and_EB,get_test,get_mean_EB_test")], ["return values, direct and internal calls"])

prop("C15", "Loss summary table is the paired analysis of each method",
 "For every loss table, each cell of the summary holds the method's mean loss, the error bar of its mean loss (or, when pairwise, of the mean of its difference to the reference) clipped to the metric's limits, and the p-value of the paired difference to the reference, computed with the chosen method and confidence. The reference method's p-value is NaN and, when pairwise, so is its error bar; limits of a difference are plus or minus the metric's range. Losses that are NaN or outside the limits are refused.",
 ["inputs", "configurations"], "all loss tables (method and metric names, order, row index, infinite losses), reference methods, pairwise flag, confidence, methods, limits",
 "tests check one random table per method",
 [MM], [("summary", MM + ":loss_summary_table")], ["returned table recomputed from the input table; resampling weights observed"])

prop("C16", "ROC curves count rates at every threshold; area is the rank statistic",
 "For all labels and finite scores, the ROC curve has one point per distinct score in descending order plus the origin, whose coordinates are the fractions of negatives and positives scored at or above that threshold, ending at (1,1). The area under it equals the probability that a random positive outscores a random negative with ties counting half, and is 0.5 when only one class is present.",
 ["inputs"], "all label vectors (including one class), score vectors with ties and any scale",
 "tests compare with sklearn on a few random inputs",
 [PC, UT], [("counting", PC + ":roc_curve"), ("area", UT + ":area")], ["returned curve and its area, direct and internal calls"])

prop("C17", "Recall-precision curves count precision at every recall",
 "For all labels and finite scores, the recall-precision curve has one point per distinct score in descending order plus a start at recall zero with the first precision, whose coordinates are the recall and the precision of predicting positive at or above that threshold. Its area is the step sum of precision over recall increments, recall ends at one, precision stays within [0,1] and ends at the positive fraction, with the limiting values when only one class is present.",
 ["inputs"], "all label vectors (including one class), score vectors with ties and any scale",
 "tests compare with sklearn on a few random inputs",
 [PC, UT], [("counting", PC + ":recall_precision_curve"), ("area", UT + ":area")], ["returned curve and its area, direct and internal calls"])

prop("C18", "Precision-recall-gain curves are the gain transform of the PR curve",
 "For all labels and finite scores, the precision-recall-gain curve has one point per distinct score in descending order plus a start point, whose coordinates are the recall gain (clipped below at zero) and the precision gain of predicting positive at or above that threshold. Gains equal (value minus positive rate) divided by (value times negative rate), end at recall gain one and precision gain zero, and are at most one.",
 ["inputs"], "all label vectors (including one class), score vectors with ties and any scale",
 "tests check a few random inputs against a reference implementation",
 [PC, UT], [("gains", PC + ":prg_curve")], ["returned curve and its area, direct and internal calls"])

prop("C19", "Sample weights in curves equal replicated data, row by row",
 "For every matrix of positive sample weights, each row of a weighted curve (ROC, recall-precision, gain) depends only on that row's weights and equals the curve of the data with each point counted that many times; integer weights equal literally repeating the points. Scaling all weights of a row changes nothing, a vanishing weight is the same as removing the point, and the order of the data points is irrelevant.",
 ["inputs", "configurations"], "all weight matrices, labels, scores",
 "tests check a few random weight matrices",
 [PC], [("weighted counting", PC + ":roc_curve,recall_precision_curve,prg_curve")], ["weighted curve results against replicated, permuted and single-row runs"])

prop("C20", "Area and interpolation of curves are exact, row by row",
 "For every batch of sorted curves, the area under each curve is the exact integral of its linear or step (previous value) interpolation and does not depend on the other curves in the batch, where for step curves infinite values over zero width contribute nothing. Evaluating curves on a grid gives the linear interpolation, or the value of the last point at or before the grid point, and adding points on the curve changes nothing.",
 ["inputs", "configurations"], "all sorted curves (duplicate abscissae, vertical jumps, infinities), grids, batch sizes, both kinds",
 "tests compare with scipy on a few random curves",
 [UT], [("area", UT + ":area"), ("interpolation", UT + ":interp1d,eval_step_func,unique_take_last")], ["return values, direct and internal calls"])

prop("C21", "Curve bootstrap: estimate, error bar, p-value and envelope agree",
 "The curve analysis reports the area of the curve on the original data, the bootstrap error bar of that area (or of its difference to the reference's area, when pairwise) and the two-sided p-value against the reference, together with the curve on the requested grid and its pointwise percentile envelope at the same confidence. All of them come from one set of resampling weights that is shared by the method and its reference and used for every replicate; positives are the points with label one.",
 ["inputs", "configurations", "histories"], "all labels, log probabilities, scalar or predictive references, curves, grids, replicate counts, pairwise flag, confidence",
 "tests check coverage of a few simulated cases",
 [CL, BU, UT], [("bootstrap", CL + ":curve_boot")], ["calls received by a recording curve function; returned summary and frame"])

prop("C22", "Curve and combined summary tables hold each method's own analysis",
 "The curve summary table holds for each method and curve the area, error bar and p-value of that method's label-one log probabilities against the reference method, with NaN p-value (and NaN error bar when pairwise) for the reference, and the dump holds that method's curve on the grid for every pair. The combined table is exactly the loss summary of the renormalized predictions next to the curve summary, all computed with the requested confidence, replicate count, pairwise flag, method and limits.",
 ["inputs", "configurations"], "all prediction tables with two labels, curve and loss dictionaries, references, options",
 "tests only check consistency on one random table",
 [CL, MM], [("assembly", CL + ":curve_summary_table,summary_table")], ["returned tables and dumps; calls received by recording curves"])

prop("C23", "One-call classification benchmark equals its stages",
 "The one-call classification benchmark returns exactly the table and curves obtained by training every method on the training data, predicting the test data, flooring and renormalizing the predictions, and summarizing losses and curves against the reference method with the requested options. Every method's means and areas are those of its own test predictions, whatever the names and order of the methods.",
 ["inputs", "configurations", "histories"], "all data sets, estimator collections, losses, curves, floors, pairwise flag, error bar methods, limits",
 "the one-call interface is not tested",
 [CL, MM, PC], [("pipeline", CL + ":just_benchmark")], ["fit/predict event log; returned table and dump recomputed from the estimators' raw outputs"])

prop("C24", "One-call regression benchmark equals its stages",
 "The one-call regression benchmark returns exactly the table obtained by training every method on the training data, predicting the test data, flooring the standard deviations and summarizing the losses against the reference method with the requested options. Every method's means, error bars and p-values are those of its own test predictions, whatever the names and order of the methods.",
 ["inputs", "configurations", "histories"], "all data sets, regressor collections, losses, floors, pairwise flag, error bar methods, limits",
 "the one-call interface is not tested",
 [RG, MM], [("pipeline", RG + ":just_benchmark")], ["fit/predict event log; returned table recomputed from the regressors' raw outputs"])

prop("C25", "Splitting a data frame partitions its rows",
 "For every data frame and split specification, every row lands in exactly one of train, test and unused with its contents, index label and order unchanged: train if every criterion puts it in train, test if every criterion puts it in test, unused otherwise. With a single criterion nothing is unused, and rows with equal values of a split column are never separated by that column.",
 ["inputs", "configurations"], "all frames (index kinds, duplicates, dtypes), any number of criteria on columns or the index, all fractions",
 "tests check sizes on random frames with default index and are unstable at present",
 [DS], [("split", DS + ":split_df")], ["returned frames"])

prop("C26", "Splitters put the right values and fraction in train",
 "The random splitter puts exactly the requested fraction of distinct values (rounded up) in train, uniformly at random; the ordered splitter puts the lowest values in train, the fewest that reach the requested fraction of distinct values (at least one); the linear splitter puts in train the values up to that fraction of the way from the minimum to the maximum. Declaring the data sorted or unique when it is changes nothing.",
 ["inputs", "configurations", "histories"], "all series, fractions in [0,1] including exact multiples, flags, random streams",
 "tests sample random fractions that avoid exact multiples",
 [DS], [("splitters", DS + ":random_split_series,ordered_split_series,linear_split_series,rand_subset,rand_mask")], ["returned masks, direct and through frame splits"])

prop("C27", "Lagged frames align every lag with its own past",
 "For every frame, number of lags, stride and feature subset, the lagged frame keeps the rows and index, holds all original columns at lag zero first and then the lags in increasing order, with at lag k the selected features' values from k times stride rows earlier (missing where there is none). The lag is the innermost column level, appended to the original column levels.",
 ["inputs", "configurations"], "all frames (index and column kinds, dtypes), lags, strides, feature subsets",
 "there is no test of lagged frames",
 [DS], [("lag frame", DS + ":build_lag_df")], ["returned frame"])

prop("C28", "Rounding of results never understates uncertainty",
 "For every results table, the rounded error bar and p-value are the smallest values with the requested digits that are not below the originals, and the rounded estimate is the nearest value (half up) at the precision of its error bar. Where the error bar is zero, infinite, missing or beyond its limit (then shown as infinite), the estimate keeps the default number of significant digits; rows, columns and order are unchanged.",
 ["inputs", "configurations"], "all float results tables, digit settings and error bar limits",
 "tests sample random values of moderate magnitude with default settings",
 [SP], [("rounding", SP + ":decimalize,create_decimal")], ["returned decimals against exact rational arithmetic"])

prop("C29", "Printed estimates and p-values read back to what was rounded",
 "For every rounded estimate, error bar, shift and clip limits, reading the printed text back (undoing the shift, with the bracketed digits counted in units of the last printed digit) gives exactly the rounded estimate and error bar; values beyond a clip limit print as above or below that limit. Printed p-values read back exactly, except that values at or below their resolution print as below it, and non-finite values print as configured.",
 ["inputs", "configurations"], "all decimals, shifts, clip limits, formats",
 "tests sample random decimals with few shifts",
 [SP], [("printing", SP + ":print_estimate,print_pval")], ["returned strings parsed by an independent reader"])

prop("C30", "Chosen decimal shift is valid and the most compact",
 "For every column of rounded estimates and error bars, the chosen decimal shift is a multiple of the required modulus, keeps every estimate printable without losing digits, and, whenever such a shift exists, leaves at least one estimate of magnitude one or more (otherwise it is the largest printable one). Among those shifts it minimizes the length of the longest printed entry (ignoring points and commas), preferring the smaller shift.",
 ["inputs", "configurations"], "all columns of decimals with mixed precision and magnitude, moduli",
 "tests check constraints on random columns, not optimality over all shifts",
 [SP], [("search", SP + ":find_shift,get_shift_range")], ["returned shift against exhaustive enumeration"])

prop("C31", "Formatted tables show every value under one aligned shift per metric",
 "For every rounded results table, each formatted entry reads back to that method's and metric's rounded estimate, error bar and p-value after undoing the metric's reported shift; clipped values show their limit and do not influence the shift. Rows keep their order, each metric has an estimate and a p-value column, and with padding on, all estimates of a column have their decimal points at the same distance from the right end.",
 ["inputs", "configurations"], "all rounded tables, moduli, clip limits, padding, non-finite formats",
 "tests check shapes and a few values",
 [SP], [("formatting", SP + ":format_table,pad_num_str")], ["returned strings parsed by an independent reader; returned shifts"])

prop("C32", "Headers state exactly the scaling and unit of the column",
 "For every metric, shift and unit, the header names the metric (underscores shown as spaces) and states the scaling applied: nothing for no shift, the SI prefix whose power is minus the shift when prefixes are used and one exists, and otherwise an explicit power of ten equal to the shift, so that displayed number and header together denote the original value. p-value columns are labelled p and, for LaTeX, every header is enclosed in braces and the power is written with a times sign.",
 ["inputs", "configurations"], "all shifts, units, prefix flags, TeX flags, metric names",
 "tests only compare two fixed examples, none with TeX shifts",
 [SP, CO], [("headers", SP + ":adjust_headers"), ("SI prefixes", CO)], ["returned headers parsed by an independent reader, exhaustive over shifts"])

prop("C33", "Final formatted output denotes the results table",
 "For every results table and formatting options, the final text (plain or LaTeX) has one row per method and per metric an estimate and a p column, and every displayed number, read together with its header's scaling and its bracketed error, denotes the method's estimate rounded to the precision of its error bar, the error bar rounded up to two digits and the p-value rounded up to four decimals. No entry is lost, duplicated or placed under another method or metric.",
 ["inputs", "configurations"], "all results tables, units, moduli, clip and error bar limits, TeX or plain, prefix flag",
 "tests run the formatter without reading the output back",
 [SP, CO], [("one-call formatting", SP + ":just_format_it,table_to_string,table_to_latex")], ["returned text parsed by an independent reader; for LaTeX the frame handed to the renderer"])

prop("C34", "Label encoding, normalization and tie-breaking noise are exact",
 "One-hot encoding has exactly one true entry per row at the label, over the requested number of labels, and refuses labels outside it. Normalizing log probabilities makes every row sum to one while preserving all differences within the row, at any magnitude and with zero probabilities. Tie-breaking noise moves every value by at most half the smallest gap (bounded by the maximum), hence never changes the order of distinct values, and, as far as the floating point resolution allows, makes tied values distinct.",
 ["inputs", "configurations"], "all labels, matrices, vectors, noise settings",
 "tests sample moderate random values",
 [UT], [("helpers", UT + ":one_hot,normalize,epsilon_noise")], ["return values, direct and internal calls"])

prop("C35", "Step function helpers evaluate and deduplicate exactly",
 "Deduplicating sorted points keeps each distinct abscissa once with the ordinate of its last occurrence; making a vector strictly increasing changes nothing that is already strictly increasing and otherwise raises each entry by the least possible amount, in place only when asked. A step function evaluates to the value of the last step at or before the point (the initial value before the first step), whether or not the steps were given sorted, and points before the first step without an initial value are refused.",
 ["inputs", "configurations"], "all point sets, grids, flags",
 "tests sample random points",
 [UT], [("helpers", UT + ":unique_take_last,cummax_strict,eval_step_func")], ["return values, direct and internal calls"])

prop("C36", "Calls leave no trace: inputs, options and later results unaffected",
 "No call modifies its arguments, default options or standard metric collections, and the result of a call depends only on its arguments and the random stream: repeating it with the same seed, after any history of other calls, gives the identical result. Functions that need no randomness do not consume the random stream, none reseeds it, and numeric error, decimal and warning settings are left as they were.",
 ["histories", "inputs", "schedules"], "all sequences of public calls",
 "tests run each function on fresh inputs and never compare histories",
 [CL, RG, MM, BU, PC, UT, DS, SP], [("pure functions with default dictionaries", "all public functions"), ("explicit random stream", BU + ":boot_weights")], ["argument snapshots around every hooked call; results in a sequence against a pristine process"])

prop("C37", "Inputs that would corrupt a comparison are refused",
 "Malformed inputs never yield results: labels outside the label range or of float type, predictions whose shape disagrees with the data, NaN predictions or losses, non-finite targets or means, non-positive standard deviations, non-finite curve scores, non-positive sample weights, losses outside their limits, unknown reference methods, fractions and confidences outside their range, and missing values in a split column all raise an error.",
 ["inputs", "fault_sequences"], "all public entry points with one injected defect at any position",
 "tests only feed valid inputs",
 [CL, RG, MM, BU, PC, UT, DS, SP], [("validation", CL + ":shape_and_validate"), ("validation", RG + ":shape_and_validate"), ("validation", MM + ":loss_summary_table")], ["whether the call raises after a single injected fault"])

prop("C38", "Results do not depend on row order, names or unrelated methods",
 "Permuting the data points, or the class labels together with their probability columns, leaves all means, areas, t and Bernstein error bars and p-values unchanged; renaming methods or metrics only relabels the table; and adding, removing or reordering other methods or metrics leaves every remaining entry that needs no resampling unchanged. Translating all losses and limits by a constant moves the means by that constant and nothing else, and rescaling them rescales means and error bars and leaves p-values.",
 ["inputs", "histories", "configurations"], "all tables and transformations, composed with the summary, curve and regression pipelines",
 "tests never compare transformed runs",
 [MM, CL, RG], [("summaries", MM + ":loss_summary_table"), ("curves", CL + ":curve_summary_table")], ["pairs of runs related by a transformation"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
