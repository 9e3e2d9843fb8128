"""Writes /verif/properties.jsonl (kept as a script so the list is reviewable)."""
import json, os
M = "mlpaper/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[M + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Rounding a results table never understates uncertainty or significance",
  "When a float results table is rounded for publication, every error bar is rounded up to at most the requested significant digits (never below the true value, by less than one unit in its last place), every p-value is rounded up to the requested decimals, and every estimate is rounded half-up to exactly the precision of its error bar. When the error bar is zero, infinite, nan or above the metric's error limit (kept only if the rounded bar is <= 10**limit, otherwise shown as infinite), the estimate keeps the default number of significant digits instead. Each value stays in its own (method, metric, statistic) cell whatever the column order of the table.",
  ["inputs", "configurations"], "all float means, non-negative/inf/nan error bars, p in [0,1] or nan, digit settings, error limits, row/column orders (estimates needing at most 28 digits)",
  "the suite samples random tables in one column order and recomputes some cells with the same decimal calls; carries (9.96 -> 10), exact decimals, limits hit exactly and reordered columns are not reached",
  ["sciprint.py"], [("decimalize, create_decimal", "sciprint.py")], ["sciprint.decimalize"])
p("C02", "Displayed estimate strings decode to the rounded value and error bar",
  "Every estimate cell of a formatted table, undone by the column's shift, decodes exactly to the rounded mean and its error-bar digits in parentheses in units of the last displayed place, in plain positional notation with thousands separators and never in exponent notation; an infinite or nan error bar shows no parentheses. An estimate beyond the metric's crap limits is shown only as '>' 10**limit or '<' -10**limit in the same shifted units, and any estimate within the limits is shown as itself. Non-finite estimates print as the caller's replacement text or their plain float name.",
  ["inputs", "configurations"], "all rounded tables with finite or clipped means, all limits, shifts and replacement texts",
  "the suite round-trips random numbers through its own helper without thousands separators, limits and error bars together",
  ["sciprint.py"], [("print_estimate, format_table", "sciprint.py")], ["sciprint.format_table", "sciprint.print_estimate"])
p("C03", "P-value cells never claim more significance than the data gave",
  "A p-value cell shows '<' followed by one unit in the last place exactly when the rounded-up p-value is at most that unit, and otherwise shows the rounded-up p-value itself with all its decimals; the number displayed is never smaller than the true p-value. A missing (nan) p-value is shown as the caller's replacement text or 'nan'.",
  ["inputs", "configurations"], "all p in [0,1] or nan and all precisions",
  "no test covers the p-value text at all",
  ["sciprint.py"], [("print_pval, decimalize", "sciprint.py")], ["sciprint.print_pval", "sciprint.format_table"])
p("C04", "The display shift is the most compact one allowed by the constraints",
  "For every metric one common shift is used for the whole column: a multiple of the requested modulus (zero when shifting is disabled) that keeps every unclipped estimate's last digit at or right of the decimal point and, if any such shift exists, leaves at least one estimate >= 1. Among those shifts the longest displayed cell is as short as possible (ignoring '.' and ','), preferring the smallest absolute shift on ties; if no shift meets the >= 1 requirement, the largest shift obeying the other constraints is used. Clipped estimates do not influence the shift.",
  ["inputs", "configurations"], "all columns of finite estimates with mixed precisions and magnitudes, all moduli >= 1",
  "tests sample a few random lists and check a subset of the constraints; optimality over all shifts with ties is a for-all statement",
  ["sciprint.py"], [("get_shift_range, find_shift, format_table", "sciprint.py")], ["sciprint.find_shift", "sciprint.format_table"])
p("C05", "Headers and exported text state the scale the numbers were displayed with",
  "In the exported plain text and LaTeX, each estimate column's header states the power of ten that was applied to it: unitless columns as 'x 1e<shift>' or '\\times 10^{<shift>}', columns with a unit by an SI prefix that compensates the shift (or the explicit factor when there is no such prefix or prefixes are off), and nothing when the shift is zero. Every method row and every metric's estimate and p-value appear under their own header, and the text contains the same cell strings as the formatted table.",
  ["inputs", "configurations"], "all shifts, unit dictionaries, prefix/TeX options, metric names and table shapes",
  "no test exercises headers, LaTeX or text export",
  ["sciprint.py", "constants.py"], [("adjust_headers, table_to_latex, table_to_string, just_format_it, _PREFIX", "sciprint.py, constants.py")],
  ["sciprint.just_format_it", "sciprint.table_to_latex", "sciprint.table_to_string", "sciprint.adjust_headers"])
p("C06", "Padding aligns decimal points and changes nothing else",
  "Padding a column of number strings only appends padding characters, and afterwards the digit before the decimal point (or before the parenthesis or end when there is none) is equally far from the end of every string. No string gets more padding than that requires: at least one string is left unchanged.",
  ["inputs"], "all columns of formatted numbers, integers, clipped and error-bar strings",
  "tests check pad lengths on a few random columns only",
  ["sciprint.py"], [("pad_num_str, find_last_dig", "sciprint.py")], ["sciprint.pad_num_str", "sciprint.format_table"])
p("C07", "Loss summaries report each method's own mean, error bar and paired p-value",
  "For every loss table, each (method, metric) cell group of the summary holds that method's mean loss on that metric (within the metric's limits), an error bar computed from its own losses, or from its differences to the reference when paired intervals are requested, and a two-sided p-value for its differences to the reference. The reference method's p-value is nan, and with paired intervals so is its error bar; nothing else is nan. A cell depends only on that method's and the reference's losses on that metric, not on the other methods or metrics, on the order of columns, or on row labels; nan losses are rejected.",
  ["inputs", "configurations"], "all loss tables (incl. infinite losses), references, limits, confidences, and the error-bar methods",
  "one randomized test recomputes the table with the same helper calls; infinite losses, non-default limits and reordered columns together are not reached",
  ["mlpaper.py", "util.py"], [("loss_summary_table, get_mean_and_EB, get_mean_EB_test, get_test", "mlpaper.py"), ("clip_chk", "util.py")], ["mlpaper.loss_summary_table"])
p("C08", "t-based error bars and p-values are exact Student-t quantities",
  "The t error bar is the Student-t quantile for the confidence level times the standard error of the mean, and the t-test p-value is the two-sided tail probability of the corresponding statistic, for every sample; p < 1 - confidence exactly when zero lies outside the interval. With fewer than two points or any infinite value the error bar is infinite and p is 1; with zero variance the error bar is 0 and p is 1 if the mean is zero and 0 otherwise.",
  ["inputs"], "all finite or infinite samples without nan, all confidences in (0,1)",
  "tests compare with the same scipy call on random normal samples",
  ["mlpaper.py"], [("t_test, t_EB", "mlpaper.py")], ["mlpaper.t_EB", "mlpaper.t_test", "mlpaper.get_mean_EB_test"])
p("C09", "Bernstein error bars and p-values follow the empirical Bernstein bound",
  "For every bounded sample the Bernstein error bar is std*sqrt(2 ln(3/delta)/N) + 3 ln(3/delta)*range/N with delta = 1 - confidence and the maximum-likelihood standard deviation, and the p-value is the smallest delta, capped at 1, whose error bar still reaches from the mean to zero. With fewer than two points or infinite values the error bar is the whole range and p is 1; with a zero or infinite range p is 1.",
  ["inputs"], "all samples within finite or infinite limits, all confidences in (0,1)",
  "tests check coherence on random samples only",
  ["mlpaper.py"], [("bernstein_EB, bernstein_test", "mlpaper.py")], ["mlpaper.bernstein_EB", "mlpaper.bernstein_test", "mlpaper.get_mean_EB_test"])
p("C10", "Bootstrap error bars on means come from resampling the points with replacement",
  "Each bootstrap replicate gives the N data points integer weights that add up to N, distributed as N independent uniform draws with replacement, with weights below the requested minimum raised to it. The bootstrap error bar of a mean is the larger distance from the sample mean to the percentile limits of the replicate means, and the p-value the two-sided fraction of replicate means on either side of zero, both from the same replicates when computed together. With fewer than two points or any infinite value the error bar is infinite and p is 1.",
  ["inputs", "schedules"], "all samples, confidences, replicate counts and random streams",
  "tests only check average coverage for a few distributions",
  ["mlpaper.py", "boot_util.py"], [("_boot_EB_and_test, boot_EB, boot_test", "mlpaper.py"), ("boot_weights", "boot_util.py")], ["mlpaper.boot_EB", "mlpaper.boot_test", "mlpaper.get_mean_EB_test", "boot_util.boot_weights"])
p("C11", "Error bars are clipped to what the known limits allow, never wrongly shrunk",
  "A clipped error bar equals the given one raised to the minimum and then lowered to the trivial bar max(upper - estimate, estimate - lower): it never exceeds the trivial bar, never falls below the minimum, is unchanged in between, and stays nan if it was nan. Without a finite limit or with a nan estimate there is no upper clipping. Estimates outside the limits and minimums larger than half the range are rejected with ValueError.",
  ["inputs"], "all estimates, bars and limits including infinities and nan",
  "the existing test is not among the stable ones and samples random values",
  ["mlpaper.py"], [("clip_EB, get_mean_and_EB, get_mean_EB_test", "mlpaper.py")], ["mlpaper.clip_EB", "mlpaper.get_mean_and_EB"])
p("C12", "Bootstrap intervals and p-values are exact order statistics of the replicates",
  "The percentile interval is made of the replicate order statistics at the tail positions rounded outward, never interpolated, per column; the basic interval is its reflection about the estimate; the error bar is the larger distance from the estimate to either end. The p-value is twice the smaller of the fractions of replicates <= and >= the reference (pairwise for replicated references), capped at 1; nan replicates are rejected.",
  ["inputs"], "all replicate arrays (any order, ties, infinities), confidences and references",
  "tests check average coverage and one Monte-Carlo coherence relation",
  ["boot_util.py"], [("confidence_to_percentiles, percentile, basic, error_bar, significance", "boot_util.py")], ["boot_util.percentile", "boot_util.basic", "boot_util.error_bar", "boot_util.significance"])
p("C13", "ROC, precision-recall and PR-gain points equal weighted threshold counts",
  "For every labelled score vector the curve has one point per distinct score in decreasing order plus a start point at threshold infinity, and each point's coordinates are computed from the total weights of positives and negatives with score >= threshold: rates for ROC, recall and precision for PR, and their gains for PRG (recall gain floored at 0); the first y value of PR and PRG repeats the second. Ties in score are never split, each weight row is treated independently, and integer weights are equivalent to repeating points.",
  ["inputs"], "all label/score vectors with ties, all positive weight matrices",
  "the curve tests do not run here (sklearn is missing), and sample a few shapes",
  ["perf_curves.py"], [("_binary_clf_curve, roc_curve, recall_precision_curve, prg_curve", "perf_curves.py")], ["perf_curves.roc_curve", "perf_curves.recall_precision_curve", "perf_curves.prg_curve"])
p("C14", "Curves stay meaningful when only one class is present",
  "When all labels are equal, every curve is finite where it is used, nan-free, sorted and non-degenerate, and the areas take their sensible limits: AUC = 0.5 and its ROC points lie on the diagonal, AP = the base rate (1 or 0), and AUPRG = 0, for every score vector and weighting.",
  ["inputs"], "all single-class label vectors, scores with and without ties, weights",
  "covered only by tests that cannot be collected here",
  ["perf_curves.py"], [("_add_pseudo_points", "perf_curves.py"), ("area", "util.py")], ["perf_curves.*", "util.area"])
p("C15", "Areas and interpolation follow the declared curve kind, duplicates included",
  "The area of a 'previous' curve is the sum of step areas (zero-width steps contribute nothing even at infinite height) and of a 'linear' curve the trapezoid sum, for each row on its own. Interpolation returns the value of that same right-continuous step or piecewise-linear function at every grid point, taking the last of several points at the same x, and step functions return the initial value before the first step. Helper operations keep the last of duplicate points and make arrays strictly increasing without lowering any element.",
  ["inputs"], "all sorted point lists with duplicates, grids inside the range, infinite heights for steps",
  "tests compare random curves with the same numpy calls",
  ["util.py"], [("area, _interp1d, interp1d, eval_step_func, unique_take_last, cummax_strict", "util.py")], ["util.area", "util.interp1d", "util.eval_step_func", "util.unique_take_last", "util.cummax_strict"])
p("C16", "Curve bootstrap summaries and envelopes come from one set of paired resamples",
  "The curve summary's estimate is the area on the original data; its error bar and p-value come from areas on weighted resamples in which the method and the reference use identical weights, the error bar from area differences to the reference exactly when paired intervals are requested. The returned curve is the original curve on the grid with the lower and upper percentile of the resampled curves at each grid point at the same confidence. The positive class is label 1 and every resample weight is positive.",
  ["inputs", "schedules", "configurations"], "all binary data sets, predictions, references (scalar or method), curve functions, grids, confidences and random streams",
  "the slow tests check average coverage only",
  ["classification.py", "boot_util.py"], [("curve_boot, check_curve", "classification.py")], ["classification.curve_boot"])
p("C17", "Curve and combined summary tables put every result in its own cell",
  "For every prediction table, the curve summary holds, for each method and curve name, that method's area, error bar and p-value against the reference method, and the curve dump holds that method's curve under (method, curve); the reference's p-value is nan, and with paired intervals its error bar too. The combined summary is the loss summary and the curve summary side by side, both for the same reference, confidence and pairing.",
  ["inputs", "configurations"], "all prediction tables, label vectors, curve/loss dictionaries, references, grids, pairings",
  "no test covers the tables",
  ["classification.py"], [("curve_summary_table, summary_table", "classification.py")], ["classification.curve_summary_table", "classification.summary_table"])
p("C18", "Classification losses equal their definitions and scale as documented",
  "Log loss is minus the log probability of the true label, Brier loss the squared distance to the one-hot label, spherical loss minus the true label's probability over the norm, for every data point; rescaled Brier and spherical losses are the unique linear rescalings giving 0 to a perfect and 1 to a uniform prediction, and 0 with a single label. Predicting the true distribution minimises each expected loss.",
  ["inputs"], "all normalized predictions incl. zero probabilities, any number of labels, int or bool labels",
  "tests compare against single closed forms on random predictions",
  ["classification.py", "util.py"], [("log_loss, brier_loss, spherical_loss", "classification.py"), ("one_hot", "util.py")], ["classification.log_loss", "classification.brier_loss", "classification.spherical_loss"])
p("C19", "Hard-loss decisions are Bayes optimal and scored by the loss matrix",
  "For every prediction and loss matrix (any number of actions) the chosen action has the smallest expected loss under the predicted distribution, and the reported loss is the matrix entry for the true label and that action. Without a matrix this is the zero-one loss of a most probable label.",
  ["inputs"], "all predictions, rectangular loss matrices with negative entries, int or bool labels",
  "tests use the 0-1 matrix and a small random set",
  ["classification.py"], [("hard_loss_decision, hard_loss", "classification.py")], ["classification.hard_loss", "classification.hard_loss_decision"])
p("C20", "Regression losses equal their definitions for every prediction",
  "Squared loss is (y - mu)^2, absolute loss |y - mu|, and log loss minus the Gaussian log density, 0.5*((y - mu)/std)^2 + ln(std) + 0.5*ln(2*pi), point by point. Non-finite targets or predictions, non-positive standard deviations and mismatched shapes are rejected.",
  ["inputs"], "all finite targets, means and positive standard deviations",
  "no test covers regression",
  ["regression.py"], [("square_loss, abs_loss, log_loss, shape_and_validate", "regression.py")], ["regression.square_loss", "regression.abs_loss", "regression.log_loss"])
p("C21", "Loss tables score each method's own normalized prediction on each point",
  "In every loss table the entry for (point, metric, method) is that metric applied to that method's prediction for that point, with the prediction table's row labels, whatever the order of methods, metrics and columns. Class predictions are renormalized first, so adding a constant to a row of log probabilities changes no loss, unless the caller says they are normalized; predictions containing nan are rejected.",
  ["inputs", "configurations"], "all classification and regression prediction tables and metric dictionaries",
  "no test covers loss_table",
  ["classification.py", "regression.py", "util.py"], [("loss_table", "classification.py, regression.py"), ("normalize", "util.py")], ["classification.loss_table", "regression.loss_table"])
p("C22", "Prediction tables hold each method's floored, normalized test predictions",
  "Every method is trained on exactly the training data and asked to predict exactly the test points, and its rows in the table are its log probabilities, taken from plain probabilities when no log probabilities are available, floored at the minimum and renormalized; Gaussian predictions are its mean and its standard deviation floored at the minimum, with unit deviation when it provides none. The noise baselines predict the training label frequencies with pseudo-counts, and the training mean and maximum-likelihood deviation.",
  ["inputs", "configurations"], "all training/test data, method collections and orders, floors, int or bool labels",
  "no test covers the prediction functions",
  ["classification.py", "regression.py"], [("get_pred_log_prob, JustNoise", "classification.py"), ("get_gauss_pred, JustNoise", "regression.py")], ["classification.get_pred_log_prob", "regression.get_gauss_pred"])
p("C23", "Checkpointing never changes results and resumes after a crash",
  "With a checkpoint directory the predictions returned are those an uncheckpointed run with the same methods and data would return, for every history of earlier runs, changed data or methods, and crashes at any method. A method whose fit and prediction completed in an earlier run on the same data is not trained again, and methods that had not completed are.",
  ["histories", "crash_points"], "all sequences of runs sharing a checkpoint directory with interruptions between or inside methods and changes of data and methods",
  "no test uses checkpointing",
  ["classification.py", "regression.py"], [("Memory.cache of train_predict", "classification.get_pred_log_prob, regression.get_gauss_pred")], ["classification.get_pred_log_prob", "regression.get_gauss_pred"],
  [("checkpoint store", "completed (method state, data) pairs and their predictions", "joblib Memory under checkpointdir")])
p("C24", "One-call benchmarks equal the composition of their parts",
  "The one-call classification and regression benchmarks return the summary obtained by training every method, tabulating its predictions with the given floor, scoring them on the test targets and summarizing against the reference with the given pairing, error-bar method and limits: every option reaches the step it belongs to, and training data and test data are never mixed up.",
  ["inputs", "configurations"], "all data sets, method collections, references and options",
  "no test calls the one-call functions",
  ["classification.py", "regression.py"], [("just_benchmark", "classification.py, regression.py")], ["classification.just_benchmark", "regression.just_benchmark"])
p("C25", "Train, test and unused sets partition the data as every column demands",
  "Splitting a data frame puts a row in training if and only if every split column puts it in training, in test if and only if every split column puts it in test, and in the unused set otherwise: each row lands in exactly one set, unmodified, with its index label and in the original order. With a single split column nothing is unused, and the default is an 80-20 random split on the index.",
  ["inputs", "configurations"], "all frames (duplicate indexes included), all combinations of split columns, kinds and fractions",
  "the splitter tests do not run here (np.float) and sample few shapes",
  ["data_splitter.py"], [("split_df, index_to_series", "data_splitter.py")], ["data_splitter.split_df"])
p("C26", "Each split kind respects its column's values, fraction and hints",
  "A random split keeps rows with equal values together and puts the smallest whole number of distinct values that is at least the fraction in training, every such choice being equally likely; an ordered split trains on the smallest non-empty leading set of distinct values holding at least the fraction of them; a linear split trains on exactly the values up to the point at that fraction of the way from the lowest to the highest value. Truthful sortedness and uniqueness hints change nothing (for random splits, under the same random seed).",
  ["inputs", "schedules"], "all series without missing values, all fractions in [0,1], all hints that are true, all random streams",
  "the splitter tests do not run here and avoid fractions that are met exactly",
  ["data_splitter.py"], [("random_split_series, ordered_split_series, linear_split_series, rand_subset, rand_mask", "data_splitter.py")], ["data_splitter.split_df", "data_splitter.random_split_series", "data_splitter.ordered_split_series", "data_splitter.linear_split_series"])
p("C27", "Lag frames hold exactly the past values of each feature",
  "In a lag frame, column (feature, lag k) of row i holds the feature's value k*stride rows earlier, or a missing value if there is no such row; lag 0 keeps every original column, higher lags exactly the requested features, rows and index are unchanged, and the lag is the last level of the column labels.",
  ["inputs", "configurations"], "all frames, lag counts >= 1, strides and feature subsets",
  "no test covers lag frames",
  ["data_splitter.py"], [("build_lag_df", "data_splitter.py")], ["data_splitter.build_lag_df"])
p("C28", "Calls leave inputs, defaults and global state untouched and are repeatable",
  "In any sequence of library calls, no call modifies its arguments, the values of omitted optional arguments, library constants, the decimal context, numpy's error handling or the numpy random state (except functions that sample, which do so only through it), and repeating a call with equal arguments and equal random state gives an equal result whatever was called in between and whatever the caller did with earlier results.",
  ["histories", "inputs"], "all sequences of calls over the public functions",
  "tests call each function in isolation and never compare state before and after",
  ["mlpaper.py", "classification.py", "regression.py", "sciprint.py", "data_splitter.py", "util.py", "perf_curves.py", "boot_util.py"],
  [("mutable default arguments, in-place helpers (cummax_strict copy), decimal.localcontext, np.errstate", "all modules")], ["all public functions"],
  [("process-global state", "random state, decimal context, errstate, defaults, constants", "numpy, decimal, module attributes")])
p("C29", "Normalization, one-hot coding and tie-breaking noise keep what they promise",
  "Normalized rows of log probabilities sum to one in probability and keep all differences between labels; one-hot rows have exactly one true entry, at the label. Tie-breaking noise moves each element by at most half the smallest gap between distinct values (or the given default for a single value, and never more than half the given maximum) and so never reorders distinct values.",
  ["inputs", "schedules"], "all log-probability arrays, labels, vectors and random streams",
  "tests sample random arrays with allclose",
  ["util.py"], [("normalize, one_hot, epsilon_noise", "util.py")], ["util.normalize", "util.one_hot", "util.epsilon_noise"])
p("C30", "One-call formatting applies every option and equals rounding, layout and export",
  "The one-call formatter turns a float results table into the text obtained by rounding it with the given error limits (two digits for error bars, four decimals for p-values, five digits by default), laying it out with the given shift modulus, crap limits and replacement texts, and exporting it as plain text or LaTeX with the given units and prefix choice: each option reaches its step for the metric it names and for no other, and omitted options have their documented defaults.",
  ["inputs", "configurations"], "all float results tables, all combinations of per-metric limits, units, shift moduli, replacement texts and output formats",
  "no test passes more than one option at a time, and none checks the whole text",
  ["sciprint.py"], [("just_format_it", "sciprint.py")], ["sciprint.just_format_it"])
p("C31", "Malformed inputs are refused, well-formed boundary inputs are answered",
  "No function turns a malformed call into a result: nan samples, replicates, losses, scores or predictions, values outside their declared limits, reversed limits, confidences outside (0,1), fractions outside [0,1], labels outside their range or not integral, arrays of mismatched shapes, non-positive or non-finite weights and deviations, unknown methods, references, kinds or columns, empty data, unusable floors and minimums, wrongly named or incomplete tables and impossible p-values or error bars are refused with an exception. Calls at the boundary of these conditions (values on their limits, fractions 0 and 1, a single point or replicate, zero error bars, p-values 0 and 1) are answered.",
  ["inputs", "configurations"], "all combinations of argument features of the public functions of every module",
  "few tests pass malformed inputs, and none combine them; a dropped check still passes every test on good data",
  ["mlpaper.py", "classification.py", "regression.py", "sciprint.py", "data_splitter.py", "util.py", "perf_curves.py", "boot_util.py"],
  [("input checks of the public functions", "all modules")], ["all public functions"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
