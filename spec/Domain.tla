------------------------------- MODULE Domain -------------------------------
(* Which calls are well-formed.  A call is abstracted to a record: op and    *)
(* the features of its arguments that decide whether it has a meaning.       *)
(* Space(op) is the set of abstract calls explored; Adm(a) says whether a     *)
(* must be answered (TRUE) or refused with an exception (FALSE); Free(a)      *)
(* are the calls about which nothing is promised.                            *)
EXTENDS Integers, Sequences, FiniteSets, XReal
Confs == {XQ(-1, 2), X0, XQ(1, 2), XQ(19, 20), X1, XI(95), "nan"}
Confidence(c) == XLt(X0, c) /\ XLt(c, X1)
Fracs == {XQ(-1, 4), X0, XQ(1, 2), X1, XQ(5, 4), "nan"}
Fraction(f) == XLe(X0, f) /\ XLe(f, X1)
Counts == {-1, 0, 1, 3}
B == BOOLEAN
(* where the values lie relative to known limits *)
Places == {"inside", "at-limits", "below", "above", "reversed"}
Placed(p) == p \in {"inside", "at-limits"}
Methods == {"t", "bernstein", "boot", "jackknife", "T", ""}
Method(m) == m \in {"t", "bernstein", "boot"}
(* labels of n_labels classes *)
Labels == {"ok", "top", "negative", "float", "short", "long", "two-d"}
LabelsOk(l) == l = "ok"
LabelsOkB(l) == l \in {"ok", "bool"}
(* numbers in an array *)
Nums == {"finite", "nan", "inf", "-inf"}

Spaces == [
  \* bootstrap
  boot_weights |-> [n : Counts, nboot : Counts],
  percentile |-> [conf : Confs, nan : B],
  basic |-> [conf : {XQ(1, 2), X1}, nan : B, shape : {"same", "other"}],
  error_bar |-> [conf : Confs, nan : B, dim : {1, 2}],
  significance |-> [nan : B, nanref : B, ref : {"scalar", "same", "other"}, dim : {1, 2}],
  \* error bars and tests on means
  t_EB |-> [n : {0, 1, 2, 5}, nan : B, conf : Confs, dim : {1, 2}],
  t_test |-> [n : {0, 1, 2, 5}, nan : B, dim : {1, 2}],
  bernstein_EB |-> [n : {1, 2, 5}, nan : B, conf : Confs, place : Places],
  bernstein_test |-> [n : {1, 2, 5}, nan : B, place : Places],
  boot_EB |-> [n : {0, 1, 2, 5}, nan : B, conf : Confs, nboot : {-1, 0, 1, 20}],
  boot_test |-> [n : {0, 1, 2, 5}, nan : B, nboot : {-1, 0, 1, 20}],
  get_mean_and_EB |-> [nan : B, place : Places, method : Methods, conf : {XQ(1, 2), X0, X1}, mn : {"zero", "small", "negative", "infinite", "nan", "above-half-range"}],
  get_mean_EB_test |-> [nan : B, place : Places, method : Methods, conf : {XQ(1, 2), X0, X1}, mn : {"zero", "small", "negative", "infinite", "nan", "above-half-range"}],
  get_test |-> [nan : B, method : Methods, place : Places],
  clip_EB |-> [mu : {"inside", "lower", "upper", "below", "above", "vector"}, bar : {"scalar", "vector"}, limits : {"ok", "reversed", "nan-lower", "nan-upper"}, mn : {"zero", "small", "half-range", "negative", "infinite", "nan", "above-half-range"}],
  \* summaries of losses
  loss_summary_table |-> [rows : {0, 3}, nan : {"none", "reference", "method"}, place : Places, who : {"reference", "method"}, method : {"t", "bernstein", "jackknife"},
                          ref : {"known", "unknown"}, names : {"right", "swapped"}, conf : {XQ(1, 2), X1}, twice : B],
  \* classification
  class_loss |-> [f : {"log_loss", "brier_loss", "spherical_loss", "hard_loss"}, labels : Labels \cup {"bool"}, n : {0, 3}],
  hard_loss_matrix |-> [rows : {"fewer", "same", "more"}, actions : {0, 1, 2, 5}, dim : {1, 2}],
  class_loss_table |-> [nan : B, labels : Labels, n : {0, 3}, assume : B],
  curve |-> [f : {"roc_curve", "recall_precision_curve", "prg_curve"}, y : {"bool", "int", "float", "two-d"}, n : {0, 1, 4}, score : Nums, shape : {"same", "shorter", "longer"},
             weight : {"none", "positive", "zero", "negative", "nan", "inf", "vector", "short", "no-rows"}],
  user_curve |-> [n : {1, 2, 4}, order : {"up", "repeats", "down", "zigzag"}, x : {"finite", "nan", "inf"}, y : Nums, shape : {"same", "other"}, dim : {1, 2}, kind : {"linear", "previous", "next"}, reach : {"all", "low", "high"}],
  curve_boot |-> [labels : {2, 3}, nan : B, ref : {"scalar", "table", "nan", "nan-table", "short", "three-labels"}, nboot : {0, 1}, grid : {"default", "unit", "outside", "negative", "two-d"},
                  conf : {XQ(1, 2), X1}, score : {"finite", "-inf"}, y : {"ok", "top", "negative", "short"}],
  curve_summary_table |-> [ref : {"known", "unknown"}, labels : {2, 3}, y : {"ok", "short"}, curves : {0, 1, 2}, nan : B, nboot : {0, 5}],
  summary_table |-> [ref : {"known", "unknown"}, labels : {2, 3}, y : {"ok", "short", "top"}, nan : B, method : {"t", "jackknife"}, place : Places],
  class_noise |-> [labels : {"ok", "top", "negative", "float", "two-d"}],
  get_pred_log_prob |-> [ntest : {0, 2}, labels : Labels, features : {"same", "fewer", "more"}, kind : {"same", "other"}, floor : {"-inf", "negative", "zero", "positive", "nan"},
                         xdim : {1, 2}, answer : {"right", "short", "narrow", "wide", "vector"}],
  class_benchmark |-> [dtypes : {"same", "other"}, ref : {"known", "unknown"}, ytest : {"ok", "short", "top"}, method : {"t", "jackknife"}],
  \* regression
  regr_loss |-> [f : {"square_loss", "abs_loss", "log_loss"}, y : Nums, mu : Nums, std : Nums \cup {"zero", "negative"}, n : {0, 3}, shape : {"same", "y-short", "mu-short", "std-short", "two-d"}],
  regr_loss_table |-> [n : {0, 3}, y : {"ok", "short", "nan"}, columns : {"both", "no-mu", "no-std"}, std : {"finite", "zero", "nan"}],
  regr_noise |-> [n : {0, 1, 2, 3}, dim : {1, 2}, std : B],
  get_gauss_pred |-> [ntest : {0, 2}, y : {"ok", "short", "two-d"}, features : {"same", "fewer", "more"}, kind : {"same", "other"}, floor : {"zero", "positive", "negative", "nan"}, xdim : {1, 2, 3},
                      answer : {"right", "short-mean", "short-deviation", "two-d"}],
  regr_benchmark |-> [dtypes : {"same", "other"}, ref : {"known", "unknown"}, ytest : {"ok", "short", "nan"}, method : {"t", "jackknife"}],
  \* splitting
  split_df |-> [kind : {"random", "ordered", "linear", "shuffled", ""}, frac : Fracs, null : B, rows : {0, 1, 4}, column : {"present", "absent", "index"}, second : {"no", "good", "bad-fraction", "null"}],
  split_series |-> [kind : {"random", "ordered", "linear"}, frac : Fracs, null : B, unique : B, sorted : B, values : {"numbers", "times", "text"}],
  split_config |-> [splits : {"default", "none", "one"}, none_column : B],
  linear_limits |-> [value : {"finite", "inf", "-inf"}, sorted : B],
  rand_subset |-> [frac : Fracs, n : {0, 1, 5}],
  \* publishing
  decimalize |-> [names : {"right", "swapped"}, index : {"method", "other"}, stats : {"all", "missing", "extra"}, error : {"finite", "zero", "inf", "nan", "negative"},
                  p : {XQ(-1, 2), X0, XQ(1, 2), X1, XQ(3, 2), "inf", "nan"}, err_digits : {0, 1, 2}, pval_digits : {0, 1, 4}],
  create_decimal |-> [digits : {-1, 0, 1, 5}],
  print_estimate |-> [clips : {"none", "both", "equal", "crossed", "nan-max", "nan-min"}, bar : {"matching", "inf", "nan", "zero", "coarser", "finer", "negative"}, shift : {"ok", "limit", "too-far"}],
  print_pval |-> [p : {XQ(-1, 2), X0, XQ(1, 2), X1, XQ(3, 2), "nan"}],
  get_shift_range |-> [n : {0, 1, 3}, mean : {"finite", "inf", "nan"}, mod : {-1, 0, 1, 3}],
  find_shift |-> [n : {0, 1, 3}, mean : {"finite", "inf", "nan"}, mod : {-1, 0, 1, 3}, errs : {"same", "fewer", "more"}],
  format_table |-> [names : {"right", "swapped"}, index : {"method", "other"}, stats : {"all", "missing", "extra"}, rows : {0, 1, 3}, p : {"same-places", "mixed-places"}, mean : {"finite", "inf"}, mod : {-1, 0, 1, 3}],
  adjust_headers |-> [shift : {"known", "unknown"}, stat : {"estimate", "p", "mean"}, tex : B],
  table_to_text |-> [names : {"right", "swapped"}, shift : {"known", "unknown"}, tex : B],
  pad_num_str |-> [text : {"number", "starts-with-point", "starts-with-paren", "empty"}, others : {0, 2}],
  digit_str |-> [x : {"finite", "inf", "nan"}],
  \* helpers
  one_hot |-> [nlabels : {0, 1, 3}, labels : {"ok", "top", "negative", "float", "bool", "two-d"}, n : {0, 3}],
  normalize |-> [dim : {1, 2, 3}, cols : {0, 1, 3}, n : {0, 2}],
  epsilon_noise |-> [x : Nums, dim : {1, 2}, eps : {"default", "zero", "negative", "above-max"}, constant : B],
  unique_take_last |-> [order : {"up", "repeats", "down", "zigzag"}, nan : B, y : {"none", "same", "short"}, n : {0, 3}],
  cummax_strict |-> [dim : {1, 2}, nan : B],
  eval_step_func |-> [before : B, ival : {"none", "scalar", "vector"}, repeats : B, skip : B, shape : {"same", "other"}, grid : {0, 1, 2}],
  interp1d |-> [kind : {"linear", "previous", "next"}, n : {1, 2, 4}, order : {"up", "down", "zigzag"}, grid : {"inside", "below", "above"}, shape : {"same", "other"}],
  area |-> [kind : {"linear", "previous", "next", "cubic"}, n : {1, 2, 4}, nan : {"none", "x", "y"}, shape : {"same", "other"}, dim : {1, 2}],
  clip_chk |-> [x : {"inside", "rounding", "outside", "nan"}]
]
Ops == DOMAIN Spaces

(* the ranges for which a minimum error bar makes sense *)
MinOk(mn) == mn \in {"zero", "small", "half-range"}
(* the conditions a call must meet, one by one *)
Conds(op, a) ==
  CASE op = "boot_weights" -> <<a.n >= 1, a.nboot >= 1>>
    [] op = "percentile" -> <<Confidence(a.conf), ~a.nan>>
    [] op = "basic" -> <<Confidence(a.conf), ~a.nan, a.shape = "same">>
    [] op = "error_bar" -> <<Confidence(a.conf), ~a.nan, a.dim = 1>>
    [] op = "significance" -> <<~a.nan, ~a.nanref, a.ref # "other", a.dim = 1>>
    [] op = "t_EB" -> <<~a.nan, Confidence(a.conf), a.dim = 1>>
    [] op = "t_test" -> <<~a.nan, a.dim = 1>>
    [] op = "bernstein_EB" -> <<~a.nan, Confidence(a.conf), Placed(a.place)>>
    [] op = "bernstein_test" -> <<~a.nan, Placed(a.place)>>
    [] op = "boot_EB" -> <<~a.nan, (a.n >= 2 => Confidence(a.conf) /\ a.nboot >= 1)>>
    [] op = "boot_test" -> <<~a.nan, (a.n >= 2 => a.nboot >= 1)>>
    [] op \in {"get_mean_and_EB", "get_mean_EB_test"} -> <<~a.nan, Placed(a.place), Method(a.method), Confidence(a.conf), MinOk(a.mn)>>
    [] op = "get_test" -> <<~a.nan, Method(a.method), (a.method = "bernstein" => Placed(a.place))>>
    [] op = "clip_EB" -> <<a.limits = "ok", a.mu \in {"inside", "lower", "upper"}, a.bar = "scalar", MinOk(a.mn)>>
    [] op = "loss_summary_table" -> <<a.rows > 0, a.nan = "none", Placed(a.place), Method(a.method), a.ref = "known", a.names = "right", Confidence(a.conf), ~a.twice>>
    [] op = "class_loss" -> <<LabelsOkB(a.labels), a.n > 0>>
    [] op = "hard_loss_matrix" -> <<a.rows = "same", a.actions >= 1, a.dim = 2>>
    [] op = "class_loss_table" -> <<~a.nan, LabelsOk(a.labels), a.n > 0>>
    [] op = "curve" -> <<a.y = "bool", a.n > 0, a.score = "finite", a.shape = "same", a.weight \in {"none", "positive"}>>
    [] op = "user_curve" -> <<a.n >= 2, a.order \in {"up", "repeats"}, a.x = "finite", a.y \in {"finite", "-inf"}, a.shape = "same", a.dim = 2, a.kind # "next", a.reach = "all">>
    [] op = "curve_boot" -> <<a.labels = 2, ~a.nan, a.ref \in {"scalar", "table"}, a.nboot >= 1, a.grid \in {"default", "unit"}, Confidence(a.conf), a.score = "finite", a.y = "ok">>
    [] op = "curve_summary_table" -> <<a.ref = "known", a.labels = 2, a.y = "ok", a.curves > 0, ~a.nan, a.nboot >= 1>>
    [] op = "summary_table" -> <<a.ref = "known", a.labels = 2, a.y = "ok", ~a.nan, Method(a.method), Placed(a.place)>>
    [] op = "class_noise" -> <<LabelsOk(a.labels)>>
    [] op = "get_pred_log_prob" -> <<a.ntest > 0, LabelsOk(a.labels), a.features = "same", a.kind = "same", a.floor \in {"-inf", "negative"}, a.xdim = 2, a.answer = "right">>
    [] op = "class_benchmark" -> <<a.dtypes = "same", a.ref = "known", a.ytest = "ok", Method(a.method)>>
    [] op = "regr_loss" -> <<a.y = "finite", a.mu = "finite", a.std = "finite", a.n > 0, a.shape = "same">>
    [] op = "regr_loss_table" -> <<a.n > 0, a.y = "ok", a.columns = "both", a.std = "finite">>
    [] op = "regr_noise" -> <<a.n >= 2, a.dim = 1, a.std>>
    [] op = "get_gauss_pred" -> <<a.ntest > 0, a.y = "ok", a.features = "same", a.kind = "same", a.floor \in {"zero", "positive"}, a.xdim = 2, a.answer = "right">>
    [] op = "regr_benchmark" -> <<a.dtypes = "same", a.ref = "known", a.ytest = "ok", Method(a.method)>>
    [] op = "split_df" -> <<a.kind \in {"random", "ordered", "linear"}, Fraction(a.frac), ~a.null, a.rows > 0, a.column # "absent", a.second \in {"no", "good"}>>
    [] op = "split_series" -> <<Fraction(a.frac), ~a.null>>
    [] op = "split_config" -> <<a.splits # "none", ~a.none_column>>
    [] op = "linear_limits" -> <<a.value = "finite">>
    [] op = "rand_subset" -> <<Fraction(a.frac)>>
    [] op = "decimalize" -> <<a.names = "right", a.index = "method", a.stats = "all", a.error # "negative", (XIsNan(a.p) \/ Fraction(a.p)), a.err_digits >= 1, a.pval_digits >= 1>>
    [] op = "create_decimal" -> <<a.digits >= 1>>
    [] op = "print_estimate" -> <<a.clips \in {"none", "both"}, a.bar \in {"matching", "inf", "nan", "zero"}, a.shift # "too-far">>
    [] op = "print_pval" -> <<XIsNan(a.p) \/ Fraction(a.p)>>
    [] op = "get_shift_range" -> <<a.n > 0, a.mean = "finite", a.mod >= 1>>
    [] op = "find_shift" -> <<(a.n > 0 => a.mean = "finite"), a.mod >= 1, a.errs = "same">>
    [] op = "format_table" -> <<a.names = "right", a.index = "method", a.stats = "all", a.rows > 0, (a.rows > 1 => a.p = "same-places"), a.mean = "finite", a.mod >= 1>>
    [] op = "adjust_headers" -> <<a.shift = "known", a.stat # "mean">>
    [] op = "table_to_text" -> <<a.names = "right", a.shift = "known">>
    [] op = "pad_num_str" -> <<a.text = "number">>
    [] op = "digit_str" -> <<a.x = "finite">>
    [] op = "one_hot" -> <<a.nlabels >= 1, (a.labels = "ok" \/ (a.n = 0 /\ a.labels \in {"top", "negative"}))>>
    [] op = "normalize" -> <<a.dim = 2, a.cols >= 1>>
    [] op = "epsilon_noise" -> <<a.x = "finite", a.dim = 1, (a.constant => a.eps \in {"default", "above-max"})>>
    [] op = "unique_take_last" -> <<(a.n > 0 => ~a.nan /\ a.order \in {"up", "repeats"} /\ a.y # "short")>>
    [] op = "cummax_strict" -> <<a.dim = 1, ~a.nan>>
    [] op = "eval_step_func" -> <<(a.grid > 0 /\ a.before => a.ival # "none"), a.ival # "vector", (a.repeats => a.skip), a.shape = "same", a.grid # 2>>
    [] op = "interp1d" -> <<a.kind # "next", a.n >= 2, a.order = "up", a.shape = "same", a.grid # "below", (a.kind = "linear" => a.grid # "above")>>
    [] op = "area" -> <<a.kind \in {"linear", "previous"}, a.n >= 2, a.nan = "none", a.shape = "same", a.dim = 2>>
    [] op = "clip_chk" -> <<a.x # "outside">>
Faults(op, a) == LET k == Conds(op, a) IN Cardinality({i \in 1..Len(k) : ~k[i]})
AdmIn(op, a) == Faults(op, a) = 0
Adm(c) == AdmIn(c.op, c.a)

(* Calls about which nothing is promised: two conditions that exclude each   *)
(* other in one argument, or a condition on an argument that is not used.    *)
Free(c) == LET op == c.op a == c.a IN
  CASE op = "t_EB" -> a.nan /\ a.n = 0
    [] op = "t_test" -> a.nan /\ a.n = 0
    [] op \in {"boot_EB", "boot_test"} -> a.n <= 1 /\ (a.nboot < 1 \/ (a.nan /\ a.n = 0) \/ (op = "boot_EB" /\ ~Confidence(a.conf)))
    [] op = "significance" -> a.nanref /\ a.ref = "other"
    [] op = "get_test" -> a.place = "reversed" /\ a.method # "bernstein"
    [] op = "decimalize" -> a.p = "inf"
    [] op = "user_curve" -> (a.y = "-inf" /\ a.kind = "linear") \/ (a.order = "repeats" /\ a.n = 2) \/ (a.n = 2 /\ a.order = "zigzag")
    [] op = "interp1d" -> a.order # "up" /\ a.n < 3
    [] op = "split_series" -> a.kind = "linear" /\ a.values # "numbers"
    [] op = "unique_take_last" -> a.n = 0 /\ a.y = "short"
    [] OTHER -> FALSE
=============================================================================
