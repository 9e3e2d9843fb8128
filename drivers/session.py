"""Records sessions of library calls with digests of the world around each (C28)."""
from common import *
import copy, decimal, hashlib, io, types
from contextlib import redirect_stdout
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
INF = float("inf")
NAN = float("nan")
MODS = [bu, btc, const, ds, bt, pc, btr, sp, util]
CONSTS = dict(classification="DEFAULT_NGRID LABEL STD_CLASS_LOSS STD_BINARY_CURVES PAIRWISE_DEFAULT", regression="MOMENT STD_REGR_LOSS",
              constants="PAIRWISE_DEFAULT METRIC METHOD STAT HORIZON MEAN_COL ERR_COL PVAL_COL STD_STATS EST_COL FMT_STATS GEN_FMT ABOVE_FMT BELOW_FMT XGRID YGRID LB UB CURVE_STATS _PREFIX _PREFIX_TEX",
              data_splitter="RANDOM ORDRED LINEAR ORDERED SFT_FMT INDEX DEFAULT_SPLIT SPLITTER_LIB", mlpaper="N_BOOT", perf_curves="EPSILON LINEAR PREV",
              sciprint="NAN_STR D_INF D_NINF", util="STRICT_SPACING")


class Guess:
    """An estimator that does not sample."""

    def __init__(self, tag):
        self.tag = tag

    def fit(self, X, y):
        self.s = float(np.asarray(X, dtype=float).sum() + np.asarray(y, dtype=float).sum())
        return self

    def predict_log_proba(self, X):
        h = np.sin(np.asarray(X, dtype=float).sum(axis=1)[:, None] * np.array([1.0, 2.0]) + self.s + len(self.tag))
        return h - np.log(np.exp(h).sum(axis=1, keepdims=True))

    def predict(self, X, return_std=False):
        h = np.sin(np.asarray(X, dtype=float).sum(axis=1) + self.s + len(self.tag))
        return (h, np.abs(h) + 0.5) if return_std else h


def canon(o, f=repr):
    """A string that is the same exactly for equal values.  f: floats."""
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return repr(o)
    if isinstance(o, (float, np.floating)):
        return f(float(o))
    if isinstance(o, (np.bool_, np.integer)):
        return repr(o.item())
    if isinstance(o, Decimal):
        return "D" + str(o)
    if isinstance(o, np.ndarray):
        return "A%s%s[%s]" % (o.dtype.kind, o.shape, ",".join(canon(x, f) for x in o.ravel().tolist()))
    if isinstance(o, pd.MultiIndex):
        return "M%s%s" % (canon(list(o.names), f), canon(list(o), f))
    if isinstance(o, pd.Index):
        return "I%s%s" % (canon(o.name, f), canon(o.tolist(), f))
    if isinstance(o, pd.Series):
        return "S%s%s%s%s" % (canon(o.name, f), o.dtype, canon(o.index, f), canon(o.tolist(), f))
    if isinstance(o, pd.DataFrame):
        return "F%s%s%s%s" % (canon(o.columns, f), canon(o.index, f), [str(d) for d in o.dtypes], [canon(o.iloc[:, j].tolist(), f) for j in range(o.shape[1])])
    if isinstance(o, dict):
        return "{%s}" % ",".join(canon(k, f) + ":" + canon(v, f) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return type(o).__name__[0] + "(%s)" % ",".join(canon(x, f) for x in o)
    if isinstance(o, (set, frozenset)):
        return "s(%s)" % ",".join(sorted(canon(x, f) for x in o))
    if isinstance(o, (types.FunctionType, type)):
        return "%s.%s" % (o.__module__, o.__qualname__)
    if isinstance(o, Guess):
        return "Guess" + o.tag
    return "obj:" + type(o).__name__ + (":" + str(o) if isinstance(o, (pd.Timestamp,)) else "")


def dg(s):
    return hashlib.sha1(s.encode()).hexdigest()[:12]


def describe(o):
    """A result as (digest of all but its floats, its floats)."""
    nums = []

    def f(x):
        nums.append(x)
        return "#"
    return dg(canon(o, f)), nums


class Results:
    """Names for results; results equal up to rounding get the same name."""

    def __init__(self):
        self.by = {}

    def name(self, shape, nums):
        for i, old in enumerate(self.by.setdefault(shape, [])):
            if len(old) == len(nums) and np.allclose(old, nums, rtol=1e-11, atol=1e-13, equal_nan=True):
                return shape + "-%d" % i
        self.by[shape].append(nums)
        return shape + "-%d" % (len(self.by[shape]) - 1)


def _functions():
    r = []
    for m in MODS:
        for n, f in sorted(vars(m).items()):
            fs = [(n, f)]
            if isinstance(f, type) and f.__module__ == m.__name__:
                fs = [(n + "." + k, g) for k, g in sorted(vars(f).items())]
            for nm, g in fs:
                if isinstance(g, types.FunctionType) and g.__module__ == m.__name__ and (g.__defaults__ or g.__kwdefaults__):
                    r.append((m.__name__ + "." + nm, g))
    return r


FUNCS = _functions()


def defaults():
    r = []
    for nm, g in FUNCS:
        names = g.__code__.co_varnames[:g.__code__.co_argcount]
        d = g.__defaults__ or ()
        d = dict(zip(names[len(names) - len(d):], d))
        d.update(g.__kwdefaults__ or {})
        r.append(nm + canon({k: v for k, v in d.items() if not k.startswith("_")}))
    return dg("".join(r))


def consts():
    return dg("|".join("%s=%s" % (n, canon(getattr(m, n))) for m in MODS for n in CONSTS.get(m.__name__.split(".")[-1], "").split() if hasattr(m, n)))


def dec_ctx():
    c = decimal.getcontext()
    return dg(repr((c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(str(k) for k, v in c.traps.items() if v))))


def rng_state():
    s = np.random.get_state()
    return dg(repr((s[0], s[1].tobytes(), s[2], s[3], s[4])))


def world(args):
    return dict(args=dg(canon(args)), defaults=defaults(), consts=consts(), dec=dec_ctx(), err=dg(repr(sorted(np.geterr().items()))), rng=rng_state(), other=dg(repr(random.getstate())))


# ---- calls: name -> maker of (function, args, kwargs, samples) ----
def arr(n, lo=-2, hi=2, q=8):
    return np.array([rng.randint(lo * q, hi * q) / q for _ in range(n)])


def binlp(n):
    p = np.array([rng.choice([0.125, 0.25, 0.5, 0.75, 0.9]) for _ in range(n)])
    return np.log(np.stack((1 - p, p), axis=1))


def ylab(n, k=2):
    y = np.array([rng.randrange(k) for _ in range(n)])
    y[0], y[1] = 0, 1
    return y


def pred_table(n, methods=("a", "b", "ref"), k=2):
    t = pd.DataFrame({(m, j): np.zeros(n) for m in methods for j in range(k)})
    t.columns = pd.MultiIndex.from_tuples(list(t.columns), names=["method", "label"])
    for m in methods:
        p = np.array([[rng.randint(1, 9) for _ in range(k)] for _ in range(n)], dtype=float)
        p = np.log(p) if rng.random() < 0.5 else np.log(p / p.sum(axis=1, keepdims=True))
        for j in range(k):
            t[(m, j)] = p[:, j]
    return t


def gauss_table(n, methods=("a", "b", "ref")):
    t = pd.DataFrame({(m, s): (arr(n) if s == "mu" else np.abs(arr(n)) + 0.25) for m in methods for s in ("mu", "std")})
    t.columns = pd.MultiIndex.from_tuples(list(t.columns), names=["method", "moment"])
    return t


def ltable(n):
    t = pd.DataFrame({(m, k): np.abs(arr(n)) for m in ("NLL", "Brier") for k in ("a", "b", "ref")})
    t.columns = pd.MultiIndex.from_tuples(list(t.columns), names=["metric", "method"])
    return t


def perf(nan=False):
    t = pd.DataFrame({(m, s): [rng.uniform(0, 20) if s == "mean" else (rng.uniform(0.001, 3) if s == "error" else rng.uniform(0, 1)) for _ in range(3)]
                      for m in ("NLL", "Brier") for s in ("mean", "error", "p")}, index=pd.Index(["a", "b", "ref"], name="method"))
    t.columns = pd.MultiIndex.from_tuples(list(t.columns), names=["metric", "stat"])
    if rng.random() < 0.4:
        t.iloc[2, 2] = NAN
        t.iloc[1, 1] = rng.choice([NAN, INF])
    return t


def xy(n=8):
    return arr(2 * n).reshape(n, 2), ylab(n), arr(2 * n).reshape(n, 2), ylab(n)


def meth():
    return {k: Guess(k) for k in ("a", "bb", "ref")}


def lim():
    return rng.choice([{}, {}, {"NLL": (0.0, 10.0)}, {"NLL": (0.0, 10.0), "Brier": (0, 5)}])


def limB():
    return {"NLL": (0.0, 10.0), "Brier": (0, 5)}


def frame(n):
    return pd.DataFrame(dict(x=arr(n), g=[rng.choice("abc") for _ in range(n)], k=[rng.randint(0, 4) for _ in range(n)]), index=[rng.randint(0, 30) for _ in range(n)])


def srs(n):
    return pd.Series(arr(n, 0, 8, 2), index=range(5, 5 + n))


def mk(f, *a, **k):
    return f, a, k, False


def sm(f, *a, **k):
    return f, a, k, True


def dec(x):
    return Decimal(x)


def curve_dict():
    return rng.choice([dict(btc.STD_BINARY_CURVES), btc.STD_BINARY_CURVES, {"AUC": pc.roc_curve}])


def decs():
    t = pd.DataFrame({(m, k): [dec("%.2f" % rng.uniform(1, 300)) if k == "mean" else (dec("%.2f" % rng.uniform(0.1, 0.9)) if k == "error" else dec("%.4f" % rng.random())) for _ in range(3)]
                      for m in ("NLL", "Brier") for k in ("mean", "error", "p")}, index=pd.Index(["a", "b", "ref"], name="method"))
    t.columns = pd.MultiIndex.from_tuples(list(t.columns), names=["metric", "stat"])
    if rng.random() < 0.4:
        t.iloc[2, 2] = dec("NaN")
        t.iloc[1, 1] = dec(rng.choice(["NaN", "Infinity"]))
    return t


def strs():
    t = pd.DataFrame({(m, k): ["%d.%d" % (rng.randint(1, 99), rng.randint(0, 9)) for _ in range(3)] for m in ("NLL", "Brier") for k in ("estimate", "p")}, index=pd.Index(["a", "b", "ref"], name="method"))
    t.columns = pd.MultiIndex.from_tuples(list(t.columns), names=["metric", "stat"])
    return t


def strtab(f):
    return mk(f, strs(), {"NLL": rng.choice([0, -3, 5]), "Brier": 3}, {"NLL": "nats"})


def noise(cls, y):
    m = cls()
    m.fit(np.zeros((len(y), 2)), y)
    x = np.zeros((3, 2))
    return m.predict_log_proba(x) if hasattr(m, "predict_log_proba") else m.predict(x, return_std=True)


def fake_latex(self, *a, **k):
    """DataFrame.to_latex needs jinja2, which is not installed."""
    return self.to_string() + repr(sorted(k.items()))


try:
    import jinja2  # noqa: F401
except ImportError:
    pd.DataFrame.to_latex = fake_latex


PURE = [
    lambda: mk(util.one_hot, ylab(5, 3), 3), lambda: mk(util.normalize, arr(8).reshape(4, 2)), lambda: mk(util.unique_take_last, np.sort(arr(6, 0, 1, 2)), arr(6)),
    lambda: mk(util.cummax_strict, np.sort(arr(6))), lambda: mk(util.cummax_strict, arr(6)), lambda: mk(util.eval_step_func, arr(4), np.cumsum(1 + np.abs(arr(9))), np.arange(9) * 1.0, -1.0),
    lambda: mk(util.eval_step_func, arr(4, -1, 1), np.array([-1.5, 0.25, 0.75]), arr(3), 0.5), lambda: mk(util.area, np.sort(arr(12).reshape(3, 4), axis=1), arr(12).reshape(3, 4), rng.choice(["linear", "previous"])),
    lambda: mk(util.clip_chk, arr(5, 0, 1), 0.0, 1.0),
    lambda: mk(bu.percentile, arr(60).reshape(20, 3), rng.choice([0.5, 0.9])), lambda: mk(bu.basic, arr(40), rng.random(), 0.8), lambda: mk(bu.error_bar, arr(40), rng.random(), 0.8),
    lambda: mk(bu.significance, arr(40), rng.choice([0.0, 0.25])), lambda: mk(bu.significance, arr(40), arr(40)), lambda: mk(bu.confidence_to_percentiles, 0.9),
    lambda: mk(bt.clip_EB, rng.random(), rng.choice([0.0, 0.5, 9.0, NAN]), -1, 1.5, 0.25), lambda: mk(bt.clip_EB, rng.choice([0.5, NAN]), rng.choice([INF, NAN, 1.0]), -1, 3), lambda: mk(bt.t_test, arr(6)), lambda: mk(bt.t_EB, arr(6), 0.9), lambda: mk(bt.t_EB, arr(6)),
    lambda: mk(bt.bernstein_test, arr(6), -2.0, 2.0), lambda: mk(bt.bernstein_EB, arr(6), -2.0, 2.0, 0.9), lambda: mk(bt.get_mean_and_EB, arr(6), 0.9, 0.1, -3, 3, rng.choice(["t", "bernstein"])),
    lambda: mk(bt.get_test, arr(6), -2.0, 2.0, rng.choice(["t", "bernstein"])), lambda: mk(bt.get_mean_EB_test, arr(6)), lambda: mk(bt.get_mean_EB_test, arr(6), 0.9, 0.1, -3, 3, rng.choice(["t", "bernstein"])),
    lambda: mk(bt.loss_summary_table, ltable(6), "ref"), lambda: mk(bt.loss_summary_table, ltable(6), "ref", pairwise_CI=True, limits=lim()),
    lambda: mk(bt.loss_summary_table, ltable(6), "ref", limits=limB(), method_EB="bernstein"),
    lambda: mk(pc.roc_curve, ylab(6) == 1, arr(6)), lambda: mk(pc.recall_precision_curve, ylab(6) == 1, arr(6), np.abs(arr(12)).reshape(2, 6) + 0.5), lambda: mk(pc.prg_curve, ylab(6) == 1, arr(6)),
    lambda: mk(pc.roc_curve, ylab(6) == 1, arr(6), np.abs(arr(12)).reshape(2, 6) + 0.5), lambda: mk(pc.prg_curve, ylab(6) == 1, arr(6), np.abs(arr(6)).reshape(1, 6) + 0.5),
    lambda: mk(btc.log_loss, ylab(5), binlp(5)), lambda: mk(btc.brier_loss, ylab(5), binlp(5)), lambda: mk(btc.spherical_loss, ylab(5), binlp(5)), lambda: mk(btc.hard_loss, ylab(5), binlp(5)),
    lambda: mk(btc.hard_loss, ylab(5), binlp(5), np.abs(arr(6)).reshape(2, 3)), lambda: mk(btc.hard_loss_decision, binlp(5), np.abs(arr(6)).reshape(2, 3)), lambda: mk(btc.shape_and_validate, ylab(5), binlp(5)),
    lambda: mk(btc.loss_table, pred_table(5), ylab(5), btc.STD_CLASS_LOSS), lambda: mk(btc.loss_table, pred_table(5, k=3), ylab(5, 3), {"NLL": btc.log_loss}),
    lambda: mk(btc.get_pred_log_prob, *xy()[:3], 2, meth()), lambda: mk(btc.get_pred_log_prob, *xy()[:3], 2, meth(), min_log_prob=-1.0),
    lambda: mk(btr.square_loss, arr(5), arr(5), np.abs(arr(5)) + 0.5), lambda: mk(btr.abs_loss, arr(5), arr(5), np.abs(arr(5)) + 0.5), lambda: mk(btr.log_loss, arr(5), arr(5), np.abs(arr(5)) + 0.5),
    lambda: mk(btr.loss_table, gauss_table(5), arr(5), btr.STD_REGR_LOSS), lambda: mk(btr.get_gauss_pred, arr(8).reshape(4, 2), arr(4), arr(8).reshape(4, 2), meth(), min_std=rng.choice([0.0, 0.75])),
    lambda: mk(btr.just_benchmark, arr(8).reshape(4, 2), arr(4), arr(8).reshape(4, 2), arr(4), meth(), btr.STD_REGR_LOSS, "ref"),
    lambda: mk(btr.just_benchmark, arr(8).reshape(4, 2), arr(4), arr(8).reshape(4, 2), arr(4), meth(), {"NLL": btr.log_loss}, "ref", pairwise_CI=True, limits={"NLL": (-50.0, 50.0)}),
    lambda: mk(sp.decimalize, perf()), lambda: mk(sp.decimalize, perf(), 1, 2, 3, {"NLL": rng.choice([-2, 0, 3])}), lambda: mk(sp.format_table, decs(), shift_mod=rng.choice([None, 1, 3])),
    lambda: mk(sp.format_table, decs(), 3, True, {"NLL": 2}, {"Brier": -1}, {"nan": "N/A"}), lambda: mk(sp.format_table, decs(), crap_limit_max={"NLL": 0, "Brier": 1}),
    lambda: mk(sp.print_estimate, dec("12.345"), dec("0.021")), lambda: mk(sp.print_estimate, dec("NaN"), dec("NaN"), non_finite_fmt={"nan": "--"}), lambda: mk(sp.print_pval, dec("0.0312"), non_finite_fmt={}),
    lambda: mk(sp.print_pval, dec("0.00001")), lambda: mk(sp.get_shift_range, [dec("1.20"), dec("345.6")], 3), lambda: mk(sp.find_shift, [dec("1.20"), dec("345.60")], [dec("0.25"), dec("NaN")], rng.choice([1, 3])),
    lambda: mk(sp.find_last_dig, "12.34"), lambda: mk(sp.pad_num_str, ["1.2", "33", "-4.567"]), lambda: mk(sp.adjust_headers, [("a", "estimate"), ("a", "p"), ("b", "estimate")], {"a": 3, "b": 0}, {"a": "s"}, True, rng.choice([True, False])),
    lambda: strtab(sp.table_to_string), lambda: strtab(sp.table_to_latex),
    lambda: mk(noise, btc.JustNoise, ylab(6)), lambda: mk(noise, btr.JustNoise, arr(6)),
    lambda: mk(sp.create_decimal, rng.uniform(0, 100), 3), lambda: mk(sp.create_decimal, 1e-7 / 3, 2), lambda: mk(sp.digit_str, dec("1.250")), lambda: mk(sp.decimal_eps, dec("1.250")), lambda: mk(sp.decimal_to_dot, dec("1.25")),
    lambda: mk(sp.just_format_it, perf(), {"NLL": "nats"}, 3), lambda: mk(sp.just_format_it, perf(), shift_mod=3, crap_limit_max={"NLL": 2}, EB_limit={"Brier": 1}, non_finite_fmt={"nan": "N/A"}),
    lambda: mk(ds.split_df, frame(8), {"k": ("ordered", 0.5), "x": ("linear", 0.25)}), lambda: mk(ds.split_df, frame(6), {None: ("ordered", 0.7)}), lambda: mk(ds.build_lag_df, frame(6), 3, 2, ["x", "k"]),
    lambda: mk(ds.build_lag_df, frame(5), 2), lambda: mk(ds.ordered_split_series, srs(6), 0.4), lambda: mk(ds.linear_split_series, srs(6), 0.4), lambda: mk(ds.index_to_series, frame(5).index),
]


def big(n=90):
    return np.random.RandomState(rng.randint(0, 9999)).randn(n)


def view(a):
    """The same numbers in another memory layout."""
    r = rng.random()
    if r < 0.3:
        return np.asfortranarray(a)
    if r < 0.6:
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a[::-1].copy()[::-1] if r < 0.8 else a


def lp(n, k):
    a = np.abs(big(n * k)).reshape(n, k) + 0.01
    return view(np.log(a / a.sum(axis=1, keepdims=True)))


def shuffled(t):
    c = list(t.columns)
    rng.shuffle(c)
    return t[c]


def odd(t):
    """Some infinite or nan entries."""
    t = t.copy()
    t.iloc[0, 0] = INF
    t.iloc[-1, -1] = INF
    return t


def yb(n):
    return ylab(n).astype(rng.choice([bool, int, np.int32]))


def tied(n):
    return view(np.sort(arr(n, 0, 1, 2)))


def perf_many():
    ms = ["m%d" % i for i in range(9)]
    t = pd.DataFrame({(m, s): [rng.uniform(-2e4, 2e4) if s == "mean" else (rng.choice([0.0, INF, NAN, 12.5, 1e-3, 99.6]) if s == "error" else rng.choice([NAN, 0.0, 1.0, 1e-5, 0.03])) for _ in ms]
                      for m in ("NLL", "Brier", "z") for s in ("p", "mean", "error")}, index=pd.Index(ms, name="method"))
    t.columns = pd.MultiIndex.from_tuples(list(t.columns), names=["metric", "stat"])
    return shuffled(t)


PURE += [
    lambda: mk(util.one_hot, yb(40).astype(int), 2), lambda: mk(util.normalize, lp(40, 6) - 3), lambda: mk(util.normalize, np.where(lp(9, 3) < -2, -INF, 0.0)), lambda: mk(util.unique_take_last, tied(50), big(50)), lambda: mk(util.unique_take_last, tied(7)),
    lambda: mk(util.cummax_strict, tied(30)), lambda: mk(util.cummax_strict, big(30)), lambda: mk(util.eval_step_func, big(20), np.sort(big(30)), big(30), -INF, rng.random() < 0.5), lambda: mk(util.eval_step_func, big(20), big(30), big(30), 0.0),
    lambda: mk(util.area, np.sort(big(60).reshape(3, 20), axis=1), np.where(big(60) > 1, INF, 1.0).reshape(3, 20), "previous"), lambda: mk(util.area, np.sort(big(60).reshape(3, 20), axis=1), view(big(60).reshape(3, 20)), "linear"),
    lambda: mk(util.interp1d, np.linspace(0, 1, 7), np.linspace(0, 1, 6) + np.zeros((2, 1)), big(12).reshape(2, 6), "linear"),
    lambda: mk(util.interp1d, np.linspace(0.3, 1, 7), np.sort(arr(12, 0, 1, 4).reshape(2, 6), axis=1) * 0 + np.linspace(0, 1, 6), big(12).reshape(2, 6), "previous"),
    lambda: mk(bu.percentile, view(big(900).reshape(300, 3)), 0.95), lambda: mk(bu.basic, big(900).reshape(300, 3), arr(3), 0.95), lambda: mk(bu.error_bar, view(big(500)), 0.1), lambda: mk(bu.significance, view(big(500)), view(big(500))),
    lambda: mk(bu.percentile, arr(31, 0, 1, 2)), lambda: mk(bu.error_bar, np.where(big(60) > 1.5, INF, 0.5), 0.5),
    lambda: mk(bt.clip_EB, INF, 0.25, -4), lambda: mk(bt.clip_EB, np.float64(0.5), np.float64(9.0), 0, 1),
    lambda: mk(bt.t_test, view(big(200))), lambda: mk(bt.t_test, np.full(5, 0.5)), lambda: mk(bt.t_test, np.array([1.0, INF, 2.0])), lambda: mk(bt.t_EB, view(big(200))), lambda: mk(bt.t_EB, np.array([1.0])), lambda: mk(bt.t_EB, np.array([1.0, -INF])),
    lambda: mk(bt.bernstein_EB, np.clip(view(big(200)), -2, 2), -2.0, 2.0), lambda: mk(bt.bernstein_test, np.clip(view(big(200)), -2, 2), -2.0, 2.0), lambda: mk(bt.bernstein_EB, np.array([0.5]), 0.0, 1.0), lambda: mk(bt.bernstein_test, np.array([0.25, INF]), 0.0, INF),
    lambda: mk(bt.get_mean_EB_test, view(np.clip(big(100), -2, 2)), 0.99, 0.0, -3, 3, rng.choice(["t", "bernstein"])), lambda: mk(bt.get_mean_EB_test, np.array([1.0, 2.0, INF]), method="t"),
    lambda: mk(bt.loss_summary_table, shuffled(ltable(60)), "ref", rng.random() < 0.5, 0.9), lambda: mk(bt.loss_summary_table, odd(ltable(6)), "ref", True), lambda: mk(bt.loss_summary_table, odd(ltable(6)), "b"), lambda: mk(bt.loss_summary_table, ltable(1), "ref", limits={"other": (0, 1)}),
    lambda: mk(pc.roc_curve, yb(50) == 1, view(arr(50, 0, 1, 3))), lambda: mk(pc.recall_precision_curve, yb(50) == 1, view(big(50))), lambda: mk(pc.prg_curve, yb(50) == 1, big(50), np.abs(big(150)).reshape(3, 50) + 0.1),
    lambda: mk(pc.roc_curve, np.ones(6, dtype=bool), arr(6)), lambda: mk(pc.prg_curve, np.zeros(6, dtype=bool), arr(6)), lambda: mk(pc.recall_precision_curve, yb(6) == 1, np.zeros(6), np.array([[0.0, 1, 2, 1, 1, 1]])),
    lambda: mk(btc.log_loss, yb(30), lp(30, 2)), lambda: mk(btc.brier_loss, ylab(30, 5), lp(30, 5), rng.random() < 0.5), lambda: mk(btc.spherical_loss, ylab(30, 5), lp(30, 5), rng.random() < 0.5), lambda: mk(btc.brier_loss, np.zeros(4, dtype=int), np.zeros((4, 1))),
    lambda: mk(btc.hard_loss, yb(30), lp(30, 2)), lambda: mk(btc.hard_loss, ylab(30, 4), lp(30, 4), view(big(12).reshape(4, 3))), lambda: mk(btc.hard_loss_decision, lp(30, 4), view(big(12).reshape(4, 3))), lambda: mk(btc.log_loss, yb(3), np.log(np.array([[1.0, 0], [0, 1], [0.5, 0.5]]))),
    lambda: mk(btc.loss_table, pred_table(40, k=4), ylab(40, 4), btc.STD_CLASS_LOSS), lambda: mk(btc.loss_table, pred_table(20), yb(20), {"a": btc.hard_loss, "b": btc.log_loss}, False),
    lambda: mk(btc.get_pred_log_prob, *xy(30)[:3], 2, meth(), -0.5, True), lambda: mk(btr.get_gauss_pred, view(arr(40).reshape(20, 2)), big(20), view(arr(40).reshape(20, 2)), meth(), 0.6, True),
    lambda: mk(btr.square_loss, view(big(50)), view(big(50)), np.abs(big(50)) + 0.5), lambda: mk(btr.abs_loss, view(big(50)), view(big(50)), np.abs(big(50)) + 0.5), lambda: mk(btr.log_loss, view(big(50)), view(big(50)), view(np.abs(big(50)) + 0.5)),
    lambda: mk(btr.loss_table, gauss_table(40), big(40), btr.STD_REGR_LOSS),
    lambda: mk(sp.decimalize, perf_many()), lambda: mk(sp.decimalize, perf_many(), EB_limit={"NLL": -1, "z": 1}), lambda: mk(sp.just_format_it, perf_many(), {"z": "s"}, 3, EB_limit={"NLL": -1}), lambda: mk(sp.just_format_it, perf_many(), shift_mod=1, crap_limit_min={"z": 3}, crap_limit_max={"z": 3}, use_prefix=False),
    lambda: mk(ds.split_df, frame(60), {"k": ("ordered", 0.5), "x": ("linear", 0.25)}, assume_sorted=["q"]), lambda: mk(ds.split_df, frame(30).sort_values("k"), {"k": ("ordered", 0.3), "x": ("linear", 0.9)}, assume_sorted=["k"]), lambda: mk(ds.split_df, frame(1), {"x": ("linear", 0.5)}),
    lambda: mk(ds.build_lag_df, frame(40), 12, 3), lambda: mk(ds.build_lag_df, frame(3), 6, 1, ["x"]), lambda: mk(ds.ordered_split_series, pd.Series(tied(30)), 0.4, True), lambda: mk(ds.linear_split_series, pd.Series(tied(30)), 0.4, True), lambda: mk(ds.index_to_series, frame(30).index),
    lambda: mk(noise, btc.JustNoise, yb(90)), lambda: mk(noise, btr.JustNoise, view(big(90))),
]
def wts(n, r=2):
    return (np.abs(arr(n * r)).reshape(r, n) + 0.5) * rng.choice([1e-7, 1e7, 1e10])


def grown(n):
    return arr(n) * rng.choice([1e-9, 1e7, 1e12])


def whole(n):
    return np.array([rng.randint(-9, 9) for _ in range(n)], dtype=rng.choice([int, np.int32, np.int16]))


PURE += [  # very small, very large and whole numbers
    lambda: mk(pc.roc_curve, yb(6) == 1, grown(6), wts(6)), lambda: mk(pc.recall_precision_curve, yb(6) == 1, grown(6), wts(6)), lambda: mk(pc.prg_curve, yb(6) == 1, grown(6), wts(6, 1)), lambda: mk(pc.roc_curve, yb(5) == 1, whole(5).astype(float), np.abs(whole(10)).reshape(2, 5) + 1),
    lambda: mk(bt.t_EB, grown(5)), lambda: mk(bt.t_test, grown(5)), lambda: mk(bt.t_EB, whole(6)), lambda: mk(bt.t_test, whole(6)), lambda: mk(bt.get_mean_EB_test, grown(6)), lambda: mk(bt.bernstein_EB, grown(6), -1e14, 1e14), lambda: mk(bt.bernstein_test, grown(6), -1e14, 1e14),
    lambda: mk(bt.loss_summary_table, ltable(6) * 1e9, "ref", rng.random() < 0.5), lambda: mk(bt.loss_summary_table, ltable(6) * 1e-9, "ref", rng.random() < 0.5), lambda: mk(bu.percentile, grown(30)), lambda: mk(bu.error_bar, grown(30), 0.5), lambda: mk(bu.significance, grown(30), 0.0), lambda: mk(bu.significance, grown(30), grown(30)),
    lambda: mk(util.normalize, grown(6).reshape(2, 3)), lambda: mk(util.cummax_strict, grown(6)), lambda: mk(util.area, np.sort(grown(6)).reshape(1, 6), grown(6).reshape(1, 6), rng.choice(["linear", "previous"])), lambda: mk(util.one_hot, np.array([130, 3, 255]), 256),
    lambda: mk(btr.square_loss, grown(5), grown(5), np.abs(grown(5)) + 0.5), lambda: mk(btr.abs_loss, whole(5), grown(5), np.ones(5)), lambda: mk(btr.log_loss, whole(5), grown(5), np.abs(grown(5)) + 0.5), lambda: mk(btr.square_loss, whole(5), whole(5), np.ones(5)),
    lambda: mk(btc.hard_loss, ylab(6, 3), lp(6, 3), grown(12).reshape(3, 4)), lambda: mk(btc.hard_loss, ylab(6, 3), lp(6, 3), whole(12).reshape(3, 4)), lambda: mk(btc.log_loss, ylab(6, 3), lp(6, 3) * 400), lambda: mk(btc.spherical_loss, ylab(6, 3), lp(6, 3) * 400),
    lambda: mk(sp.just_format_it, perf_many() * 1.0, {}, 3), lambda: mk(noise, btr.JustNoise, grown(6)), lambda: mk(noise, btr.JustNoise, whole(6)),
]
PURE += [  # the smallest inputs
    lambda: mk(util.one_hot, np.array([rng.randrange(3)]), 3), lambda: mk(util.one_hot, np.array([], dtype=int), 2), lambda: mk(util.normalize, arr(3).reshape(1, 3)), lambda: mk(util.normalize, arr(1).reshape(1, 1)), lambda: mk(util.cummax_strict, arr(1)),
    lambda: mk(util.unique_take_last, arr(1), arr(1)), lambda: mk(util.unique_take_last, np.array([])), lambda: mk(util.area, np.array([[0.0, 1.0]]), arr(2).reshape(1, 2), "linear"), lambda: mk(util.interp1d, np.array([0.5]), np.array([[0.0, 1.0]]), arr(2).reshape(1, 2), rng.choice(["linear", "previous"])),
    lambda: mk(util.eval_step_func, np.array([0.5]), np.array([0.0]), arr(1), 0.0), lambda: mk(util.eval_step_func, arr(1), np.array([]), np.array([]), 1.0), lambda: mk(bu.percentile, arr(1), 0.5), lambda: mk(bu.basic, arr(1), 0.25), lambda: mk(bu.error_bar, arr(1), 0.25), lambda: mk(bu.significance, arr(1), 0.0),
    lambda: mk(bt.t_EB, arr(1)), lambda: mk(bt.t_test, arr(1)), lambda: mk(bt.t_test, arr(2)), lambda: mk(bt.bernstein_EB, arr(1), -2.0, 2.0), lambda: mk(bt.bernstein_test, arr(2), -2.0, 2.0), lambda: mk(bt.get_mean_EB_test, arr(1)), lambda: mk(bt.get_mean_and_EB, arr(2)), lambda: mk(bt.loss_summary_table, ltable(1), "ref"),
    lambda: mk(pc.roc_curve, np.array([True, False]), arr(2)), lambda: mk(pc.prg_curve, np.array([False, True]), arr(2)), lambda: mk(pc.recall_precision_curve, np.array([True]), arr(1)),
    lambda: mk(btc.log_loss, np.array([1]), binlp(1)), lambda: mk(btc.brier_loss, np.array([0]), binlp(1)), lambda: mk(btc.spherical_loss, np.array([True]), binlp(1)), lambda: mk(btc.hard_loss, np.array([1]), binlp(1)), lambda: mk(btc.hard_loss_decision, binlp(1), np.array([[1.0], [2.0]])),
    lambda: mk(btc.loss_table, pred_table(1, ("ref",)), np.array([1]), btc.STD_CLASS_LOSS), lambda: mk(btr.loss_table, gauss_table(1, ("ref",)), arr(1), btr.STD_REGR_LOSS), lambda: mk(btr.square_loss, arr(1), arr(1), np.ones(1)), lambda: mk(btr.log_loss, arr(1), arr(1), np.ones(1)),
    lambda: mk(btc.get_pred_log_prob, arr(4).reshape(2, 2), np.array([0, 1]), arr(2).reshape(1, 2), 2, {"a": Guess("a")}), lambda: mk(btr.get_gauss_pred, arr(4).reshape(2, 2), arr(2), arr(2).reshape(1, 2), {"a": Guess("a")}),
    lambda: mk(noise, btc.JustNoise, np.array([1])), lambda: mk(noise, btr.JustNoise, arr(2)), lambda: mk(sp.pad_num_str, ["1.5"]), lambda: mk(sp.pad_num_str, []), lambda: mk(sp.get_shift_range, [dec("2.5")]), lambda: mk(sp.decimalize, perf().iloc[:1]), lambda: mk(sp.just_format_it, perf().iloc[:1], {"NLL": "nats"}),
    lambda: mk(ds.split_df, frame(1), {None: ("ordered", 0.5)}), lambda: mk(ds.build_lag_df, frame(1), 1), lambda: mk(ds.build_lag_df, frame(2), 2), lambda: mk(ds.ordered_split_series, srs(1), 0.5), lambda: mk(ds.linear_split_series, srs(1), 0.5),
]
SAMPLE = [
    lambda: sm(util.epsilon_noise, arr(6)), lambda: sm(bu.boot_weights, 5, 7), lambda: sm(bu.boot_weights, 5, 7, 0.01), lambda: sm(bt.boot_test, arr(5) + 1, 50), lambda: sm(bt.boot_EB, arr(5), 0.9, 50),
    lambda: sm(bt.get_mean_and_EB, arr(6), method="boot"), lambda: sm(bt.get_test, arr(6), method="boot"), lambda: sm(bt.get_mean_EB_test, arr(6), method="boot"),
    lambda: sm(bt.loss_summary_table, ltable(5), "ref", method_EB="boot", limits=lim()),
    lambda: sm(btc.curve_boot, ylab(8), binlp(8), rng.choice([0.5, binlp(8)]), n_boot=20), lambda: sm(btc.curve_boot, ylab(8), binlp(8), binlp(8), pc.prg_curve, np.linspace(0, 1, 5), 20, True, 0.9),
    lambda: sm(btc.curve_summary_table, pred_table(8), ylab(8), curve_dict(), "ref", n_boot=20), lambda: sm(btc.curve_summary_table, pred_table(8), ylab(8), curve_dict(), "ref", n_boot=20, x_grid=np.linspace(0, 1, 4), pairwise_CI=True),
    lambda: sm(btc.summary_table, pred_table(8), ylab(8), btc.STD_CLASS_LOSS, curve_dict(), "ref", n_boot=20),
    lambda: sm(btc.just_benchmark, *xy(), 2, meth(), {"NLL": btc.log_loss}, {"AUC": pc.roc_curve}, "ref"),
    lambda: sm(ds.split_df, frame(8)), lambda: sm(ds.split_df, frame(8), {"k": ("random", 0.5), "x": ("ordered", 0.5)}), lambda: sm(ds.split_df, frame(8), {"g": ("random", 0.5)}, assume_sorted=["z"]),
    lambda: sm(util.epsilon_noise, view(big(40))), lambda: sm(util.epsilon_noise, np.zeros(4)), lambda: sm(bu.boot_weights, 90, 40), lambda: sm(bt.boot_test, view(big(90))), lambda: sm(bt.boot_EB, view(big(90))), lambda: sm(bt.boot_EB, arr(3)),
    lambda: sm(bt.loss_summary_table, shuffled(ltable(40)), "ref", True, 0.9, "boot"), lambda: sm(btc.curve_boot, yb(40), lp(40, 2), lp(40, 2), n_boot=100, pairwise_CI=True), lambda: sm(btc.curve_boot, yb(12), lp(12, 2), 0.25, pc.recall_precision_curve, n_boot=30),
    lambda: sm(btc.curve_summary_table, pred_table(30), yb(30), curve_dict(), "b", n_boot=30), lambda: sm(btc.summary_table, pred_table(20), yb(20), btc.STD_CLASS_LOSS, curve_dict(), "a", n_boot=20, pairwise_CI=True, method_EB="boot"),
    lambda: sm(ds.split_df, frame(80), {"k": ("random", 0.5), None: ("random", 0.5), "x": ("random", 0.9)}, assume_unique=["z"]), lambda: sm(ds.rand_subset, tied(30), 0.5), lambda: sm(ds.rand_mask, 80, 0.3), lambda: sm(ds.random_split_series, pd.Series(tied(30)), 0.5, True),
    lambda: sm(ds.rand_subset, list(range(9)), 0.5), lambda: sm(ds.rand_mask, 9, 0.5), lambda: sm(ds.random_split_series, srs(9), 0.5),
]
RAISE = [
    lambda: mk(sp.create_decimal, 1.5, -1), lambda: mk(sp.create_decimal, "x", 2), lambda: mk(sp.decimalize, perf(), err_digits=0), lambda: mk(sp.decimalize, perf().rename(columns={"mean": "avg"})),
    lambda: mk(sp.format_table, decs().rename(columns={"p": "q"})), lambda: mk(sp.just_format_it, perf().drop(columns=[("NLL", "p")])), lambda: mk(sp.print_pval, dec("2")), lambda: mk(sp.create_decimal, 12.5, 2, "no-such-rounding"),
    lambda: mk(bt.loss_summary_table, ltable(5), "nobody"), lambda: mk(bt.loss_summary_table, ltable(5), "ref", method_EB="magic"), lambda: mk(bt.clip_EB, 0.5, -1.0), lambda: mk(bt.bernstein_EB, arr(5), 0.9, 1.0),
    lambda: mk(btc.curve_boot, ylab(6), binlp(5), 0.5, n_boot=5), lambda: sm(btc.curve_summary_table, pred_table(6), ylab(6), curve_dict(), "nobody", n_boot=5), lambda: mk(btc.log_loss, ylab(5), binlp(4)),
    lambda: mk(pc.prg_curve, np.array([True, False]), arr(3)), lambda: mk(pc.recall_precision_curve, ylab(4) == 1, np.array([1.0, NAN, 0, 2])), lambda: mk(btc.get_pred_log_prob, *xy()[:3], 2, {"a": None}),
    lambda: mk(btc.loss_table, pred_table(5), ylab(4), btc.STD_CLASS_LOSS), lambda: sm(ds.split_df, frame(6), {"k": ("random", 0.5), "nope": ("random", 0.5)}), lambda: mk(ds.split_df, frame(6), {"k": ("magic", 0.5)}),
    lambda: mk(ds.build_lag_df, frame(4), 2, 1, ["nope"]), lambda: mk(util.area, arr(4), arr(4), "cubic"), lambda: mk(util.cummax_strict, np.zeros((2, 0, 3))), lambda: mk(btr.loss_table, gauss_table(5), arr(4), btr.STD_REGR_LOSS),
]
CTX = [decimal.Context(), decimal.Context(prec=28, rounding=decimal.ROUND_DOWN), decimal.Context(prec=33)]
ERR = [dict(divide="warn", over="warn", under="ignore", invalid="warn"), dict(divide="ignore", over="warn", under="ignore", invalid="ignore")]


def edit(a):
    """The user edits an array or table in place; returns whether it did."""
    for o in a:
        if isinstance(o, np.ndarray) and o.dtype.kind == "f" and o.size and o.flags.writeable:
            o.flat[rng.randrange(o.size)] += 0.0625
            return True
        if isinstance(o, pd.DataFrame) and o.shape[0] and str(o.dtypes.iloc[0]) == "float64":
            o.iloc[rng.randrange(o.shape[0]), 0] += 0.0625
            return True
    return False


def scribble(o):
    """The user overwrites a result: it is theirs."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size and o.dtype.kind in "bif":
            o[...] = ~o if o.dtype.kind == "b" else 7
    elif isinstance(o, pd.DataFrame):
        for j in range(o.shape[1]):
            if o.shape[0] and o.dtypes.iloc[j].kind in "bif":
                o.isetitem(j, [1 - x for x in o.iloc[:, j].tolist()])
                v = o.iloc[:, j].values
                if v.flags.writeable:
                    v[...] = 1
    elif isinstance(o, pd.Series):
        if len(o) and o.dtype.kind in "bif" and o.values.flags.writeable:
            o.values[...] = 1 - o.values.astype(int)
    elif isinstance(o, tuple):
        for x in o:
            scribble(x)
    elif isinstance(o, list):
        o.clear()
    elif isinstance(o, dict):
        for x in o.values():
            scribble(x)
        o.clear()


def record(c, stream, over=False):
    """Makes the call; the world before and after and the result."""
    f, a, kw, samples = c
    pre = world((a, kw))
    with redirect_stdout(io.StringIO()):
        st, o = call(f, *a, **kw)
    post = world((a, kw))
    r = dict(fn="%s.%s" % (f.__module__, getattr(f, "__qualname__", type(f).__name__)), samples=samples, stream=stream, pre=pre, post=post, st=st, o=describe(o))
    if over and st == "ok":
        scribble(o)  # if it is an argument, that edits the argument
    return r


NFORK = [0]


def launch(f):
    """f() in a fork, so that this process itself never calls the library."""
    NFORK[0] += 1
    path = os.path.join(SCRATCH, "session-%d.json" % NFORK[0])
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            with open(path, "w") as g:
                json.dump(f(), g)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(7)
    return pid, path


def collect(h):
    _, code = os.waitpid(h[0], 0)
    if not os.WIFEXITED(code) or os.WEXITSTATUS(code) != 0:
        os._exit(7)
    with open(h[1]) as g:
        r = json.load(g)
    os.remove(h[1])
    return r


QUEUE = []


def flush(keep):
    while len(QUEUE) > keep:
        calls = [c for h in QUEUE.pop(0) for c in collect(h)]
        res = Results()
        for c in calls:
            c["res"] = ("ok:" if c.pop("st") == "ok" else "exc:") + res.name(*c.pop("o"))
        R.ev("session", calls=calls)


def session(steps, pool, fresh=False):
    """steps: role names; pool: role -> list of prepared calls.  fresh: each call of
    the pool is also made once as the first one of its own process."""
    seeds = [rng.randint(0, 10 ** 6) for _ in range(2)]

    def start():
        np.random.seed(seeds[0])
        random.seed(5)
        decimal.setcontext(CTX[0].copy())
        np.seterr(**ERR[0])

    def alone(c):
        start()
        return [record(c, "s0")]

    def run():
        start()
        calls = []
        k, stream = 0, "s0"
        for s in steps:
            if s == "seed":
                np.random.seed(seeds[k % 2])
                stream = "s%d" % (k % 2)
                k += 1
            elif s == "settings":
                decimal.setcontext(rng.choice(CTX).copy())
                np.seterr(**rng.choice(ERR))
            elif s == "edit":
                c = rng.choice(pool["pure"] + pool["sample"])
                edit(c[1])
            else:
                c = rng.choice(pool[s])
                if rng.random() < 0.3:  # equal arguments, other objects
                    c = (c[0], copy.deepcopy(c[1]), copy.deepcopy(c[2]), c[3])
                calls.append(record(c, stream, rng.random() < 0.5))
        return calls
    flush(5)
    QUEUE.append([launch(lambda: alone(c)) for r in ("pure", "sample", "raise") for c in pool[r]] if fresh else [])
    QUEUE[-1].append(launch(run))
    rng.random()


def drill(calls):
    """Each call several times in the same settings (and from the same seed, if it samples), its results overwritten in between."""
    def run():
        np.random.seed(1)
        random.seed(5)
        decimal.setcontext(CTX[0].copy())
        np.seterr(**ERR[0])
        order, r = [c for c in calls for _ in range(3)], []
        rng.shuffle(order)
        for c in order:
            if c[3]:
                np.random.seed(3)
            r.append(record((c[0], copy.deepcopy(c[1]), copy.deepcopy(c[2]), c[3]), "s3" if c[3] else "s1", True))
        return r
    flush(5)
    QUEUE.append([launch(run)])
    rng.random()


def prepare(np_, ns, nr):
    return {"pure": [f() for f in rng.sample(PURE, np_)], "sample": [f() for f in rng.sample(SAMPLE, ns)], "raise": [f() for f in rng.sample(RAISE, nr)]}


def twice(fs):
    """Calls made by fs, some with second arguments of the same kind."""
    return [c for f in fs for c in ([f(), f()] if rng.random() < 0.5 else [f()])]


def c28():
    sched = list(cases(sys.argv[3:]))
    for c in sched if THOROUGH else rng.sample(sched, 350):  # the model's schedules, each role repeated around it
        p = prepare(1, 1, 1)
        session(["seed"] + c + ["seed", "seed"] + c, p)
    every = PURE + SAMPLE + RAISE
    rng.shuffle(every)
    for i in range(0, len(every), 5):
        drill(twice(every[i:i + 5]))
    order = PURE * 2
    rng.shuffle(order)
    for i in range(0, len(order), 6):  # every pure function with every kind of neighbour
        p = prepare(1, 3, 3)
        p["pure"] = twice(order[i:i + 6])
        session([rng.choice(["pure"] * 6 + ["sample", "sample", "raise", "seed", "seed", "edit", "settings"]) for _ in range(60)], p, True)
    for i in range(0, len(SAMPLE) * N(2, 6)):
        p = prepare(3, 1, 2)
        p["sample"] = twice([SAMPLE[i % len(SAMPLE)], SAMPLE[(7 * i + 3) % len(SAMPLE)]])
        session([rng.choice(["sample"] * 6 + ["pure", "raise", "seed", "seed", "seed", "edit", "settings"]) for _ in range(40)], p, True)
    for i in range(0, len(RAISE) * N(1, 6)):
        p = prepare(3, 2, 1)
        p["raise"] = [RAISE[i % len(RAISE)]()]
        session([rng.choice(["raise"] * 3 + ["pure", "pure", "sample", "seed", "settings"]) for _ in range(25)], p)
    for _ in range(N(10, 300)):
        session([rng.choice(["pure"] * 5 + ["sample"] * 3 + ["raise", "seed", "seed", "edit", "settings"]) for _ in range(60)], prepare(6, 4, 3))


c28()
flush(0)
R.close()
