"""Replays the abstract calls of Domain (C31): each is made concrete and its outcome recorded."""
from common import *
import taps  # noqa: F401
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
INF, NAN = float("inf"), float("nan")
D = Decimal


def pick(*a):
    return rng.choice(a)


def vals(n, nan=False, lo=-3.0, hi=3.0, grid=16):
    x = [lo + (hi - lo) * rng.randint(0, grid) / grid for _ in range(n)]
    if nan and n:
        x[rng.randrange(n)] = NAN
    return np.array(x, dtype=float)


def placed(p, n, nan=False):
    """(x, lower, upper)"""
    n = max(n, 1)
    lo, hi = pick((0.0, 1.0), (-2.0, 2.0), (1.0, 3.0), (-3.0, -1.0))
    w = hi - lo
    x = np.array([lo + w * rng.randint(4, 12) / 16 for _ in range(n)])
    i = rng.randrange(n)
    if p == "at-limits":
        x[i] = pick(lo, hi)
    elif p == "below":
        x[i] = lo - pick(w, w / 4, 1e-3, 100.0)
    elif p == "above":
        x[i] = hi + pick(w, w / 4, 1e-3, 100.0)
    elif p == "reversed":
        lo, hi = hi, lo
    if nan:
        j = i if n == 1 or p in ("inside", "at-limits", "reversed") else (i + 1) % n
        x[j] = NAN
    return x, lo, hi


def conf(s):
    return num(s)


def least(mn, lo, hi):
    w = abs(hi - lo)
    return {"zero": 0.0, "small": w / 64, "half-range": w / 2, "negative": -w / 64, "infinite": INF, "nan": NAN, "above-half-range": w * pick(0.625, 1.0, 3.0)}[mn]


def labels(kind, n, k, train=False):
    """labels of k classes for n points"""
    y = np.array([rng.randrange(k) for _ in range(n)], dtype=int)
    if kind == "bool":
        return y.astype(bool) if k == 2 else np.array([rng.random() < 0.5 for _ in range(n)])
    if n and kind == "top":
        y[rng.randrange(n)] = k + pick(0, 0, 1, 5)
    if n and kind == "negative":
        y[rng.randrange(n)] = -pick(1, 1, 2)
    if kind == "float":
        return y.astype(float)
    if kind == "short":
        return y[:-1] if n > 1 else np.zeros(0, dtype=int)
    if kind == "long":
        return np.append(y, 0)
    if kind == "two-d":
        return y[:, None]
    return y


def logp(n, k):
    p = np.array([[rng.randint(1, 8) for _ in range(k)] for _ in range(n)], dtype=float).reshape(n, k)
    return np.log(p / p.sum(axis=1, keepdims=True)) if n else p


def pred_table(n, k, methods=("a", "b"), nan=False):
    cols = pd.MultiIndex.from_product([list(methods), range(k)], names=["method", "label"])
    v = np.hstack([logp(n, k) for _ in methods]) if n else np.zeros((0, k * len(methods)))
    if nan and n:
        v[rng.randrange(n), rng.randrange(v.shape[1])] = NAN
    return pd.DataFrame(v, index=range(n), columns=cols)


def num_in(x, kind):
    if len(x) and kind in ("nan", "inf", "-inf"):
        x[rng.randrange(len(x))] = float(kind)
    return x


class Clf:
    def __init__(self, k, answer):
        self.k, self.answer = k, answer

    def fit(self, X, y):
        pass

    def predict_log_proba(self, X):
        n, k = X.shape[0], self.k
        if self.answer == "short":
            n -= 1
        if self.answer == "narrow":
            k -= 1
        if self.answer == "wide":
            k += 1
        p = np.log(np.ones((n, k)) / k)
        return p[:, 0] if self.answer == "vector" else p


class Reg:
    def __init__(self, answer):
        self.answer = answer

    def fit(self, X, y):
        pass

    def predict(self, X, return_std=False):
        n = X.shape[0]
        mu, sd = np.zeros(n), np.ones(n)
        if self.answer == "short-mean":
            mu = mu[:-1]
        if self.answer == "short-deviation":
            sd = sd[:-1]
        if self.answer == "two-d":
            mu = mu[:, None]
        return (mu, sd) if return_std else mu


def design(n, d, kind, dim=2):
    x = np.array([[rng.randint(-3, 3) for _ in range(d)] for _ in range(n)], dtype=kind).reshape(n, d)
    return x if dim == 2 else (x[:, 0] if dim == 1 else x[:, :, None])


def limits_of(place, data, who):
    """limits under which data is placed as asked; data: dict method -> array"""
    allv = np.concatenate([v[np.isfinite(v)] for v in data.values()])
    lo, hi = float(np.min(allv)), float(np.max(allv))
    v = data[who][np.isfinite(data[who])]
    if place == "inside":
        return lo - 1, hi + 1
    if place == "at-limits":
        return lo, hi
    if place == "below":
        return float(np.min(v)) + 0.125, hi + 1
    if place == "above":
        return lo - 1, float(np.max(v)) - 0.125
    return hi + 1, lo - 1


def dec_frame(a, rows=2, cells=None):
    metrics = ["NLL", "acc"]
    st = ["mean", "error", "p"]
    if a.get("stats") == "missing":
        st.remove(pick("mean", "error", "p"))
    if a.get("stats") == "extra":
        st = st + ["median"]
    cols = pd.MultiIndex.from_product([metrics, st], names=["metric", "stat"] if a.get("names", "right") == "right" else ["stat", "metric"])
    t = pd.DataFrame(index=["m%d" % i for i in range(rows)], columns=cols, dtype=object)
    for m in metrics:
        for i, r in enumerate(t.index):
            for s in st:
                t.loc[r, (m, s)] = cells(m, i, s)
    t.index.name = "method" if a.get("index", "method") == "method" else pick("name", None)
    return t


def nothing(*a, **k):
    raise RuntimeError("unreachable")


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def boot_weights(a):
    return bu.boot_weights, (a["n"], a["nboot"])


@op
def percentile(a):
    return bu.percentile, (vals(pick(1, 5, 20), a["nan"]), conf(a["conf"]))


@op
def basic(a):
    b = vals(12, a["nan"]).reshape(6, 2)
    est = np.array([0.5, 1.5]) if a["shape"] == "same" else pick(0.5, np.array([0.5]), np.array([0.5, 1.5, 2.5]))
    return bu.basic, (b, est, conf(a["conf"]))


@op
def error_bar(a):
    b = vals(12, a["nan"])
    return bu.error_bar, ((b, 0.25, conf(a["conf"])) if a["dim"] == 1 else (b.reshape(6, 2), 0.25, conf(a["conf"])))


@op
def significance(a):
    b = vals(6, a["nan"])
    ref = 0.25 if a["ref"] == "scalar" else vals(6 if a["ref"] == "same" else pick(1, 5, 7))
    if a["nanref"]:
        if a["ref"] == "scalar":
            ref = NAN
        else:
            ref[rng.randrange(len(ref))] = NAN
    if a["dim"] == 2:
        b = b.reshape(3, 2)
        if np.ndim(ref) and len(ref) == 6:
            ref = ref.reshape(3, 2)
    return bu.significance, (b, ref)


def sample(a):
    x = vals(a["n"], a["nan"])
    return x if a.get("dim", 1) == 1 else x[:, None]


@op
def t_EB(a):
    return bt.t_EB, (sample(a), conf(a["conf"]))


@op
def t_test(a):
    return bt.t_test, (sample(a),)


@op
def bernstein_EB(a):
    x, lo, hi = placed(a["place"], a["n"], a["nan"])
    return bt.bernstein_EB, (x, lo, hi, conf(a["conf"]))


@op
def bernstein_test(a):
    x, lo, hi = placed(a["place"], a["n"], a["nan"])
    return bt.bernstein_test, (x, lo, hi)


@op
def boot_EB(a):
    return bt.boot_EB, (sample(a), conf(a["conf"]), a["nboot"])


@op
def boot_test(a):
    return bt.boot_test, (sample(a), a["nboot"])


def _mean(f, a):
    x, lo, hi = placed(a["place"], 5, a["nan"])
    return f, (x,), dict(confidence=conf(a["conf"]), min_EB=least(a["mn"], lo, hi), lower=lo, upper=hi, method=a["method"])


@op
def get_mean_and_EB(a):
    return _mean(bt.get_mean_and_EB, a)


@op
def get_mean_EB_test(a):
    return _mean(bt.get_mean_EB_test, a)


@op
def get_test(a):
    x, lo, hi = placed(a["place"], 5, a["nan"])
    return bt.get_test, (x, lo, hi, a["method"])


@op
def clip_EB(a):
    lo, hi = pick((0.0, 1.0), (-2.0, 2.0), (1.0, 3.0))
    w = hi - lo
    mu = dict(inside=lo + w / 4, lower=lo, upper=hi, below=lo - pick(w / 8, 1e-3, 5.0), above=hi + pick(w / 8, 1e-3, 5.0), vector=np.array([lo + w / 4] * 2))[a["mu"]]
    mn = least(a["mn"], lo, hi)
    EB = pick(0.0, w / 8, w, 5 * w, INF)
    if a["bar"] == "vector":
        EB = np.array([EB, EB])
    if a["limits"] == "reversed":
        lo, hi = hi, lo
    if a["limits"] == "nan-lower":
        lo = NAN
    if a["limits"] == "nan-upper":
        hi = NAN
    return bt.clip_EB, (mu, EB, lo, hi, mn)


@op
def loss_summary_table(a):
    n = a["rows"]
    data = {"b": vals(3, lo=0.0, hi=1.0) + 1, "a": vals(3, lo=0.0, hi=1.0) + 1}
    who = {"reference": "a", "method": "b"}[a["who"]]
    lo, hi = limits_of(a["place"], data, who)
    if a["nan"] != "none":
        data[{"reference": "a", "method": "b"}[a["nan"]]][rng.randrange(3)] = NAN
    cols = [("m", "b"), ("m", "a")] + ([("m", pick("a", "b"))] if a["twice"] else [])
    t = pd.DataFrame(np.stack([data[k] for _, k in cols], axis=1)[:n], columns=pd.MultiIndex.from_tuples(cols, names=dict(right=["metric", "method"], swapped=["method", "metric"], none=None)[a["names"]]))
    return bt.loss_summary_table, (t, "a" if a["ref"] == "known" else pick("c", "m", "")), dict(confidence=conf(a["conf"]), method_EB=a["method"], limits={"m": (lo, hi)}, pairwise_CI=pick(True, False))


@op
def class_loss(a):
    k = pick(2, 3, 4)
    return getattr(btc, a["f"]), (labels(a["labels"], a["n"], k), logp(a["n"], k))


@op
def hard_loss_matrix(a):
    k = 3
    r = dict(fewer=pick(1, 2), same=3, more=pick(4, 6))[a["rows"]]
    m = np.array([[float(rng.randint(0, 4)) for _ in range(a["actions"])] for _ in range(r)]).reshape(r, a["actions"])
    y, p = labels("ok", 4, k), logp(4, k)
    if a["dim"] == 1:
        m = m[:, 0] if a["actions"] else m.ravel()
    return btc.hard_loss, (y, p, m)


@op
def class_loss_table(a):
    k = pick(2, 3)
    t = pred_table(a["n"], k, nan=a["nan"])
    met = {"NLL": btc.log_loss, "z": btc.hard_loss}
    return btc.loss_table, (t, labels(a["labels"], a["n"], k), met, a["assume"])


@op
def curve(a):
    n = a["n"]
    y = np.array([i % 2 == 0 for i in range(n)], dtype=bool)
    rng.shuffle(y)
    s = num_in(vals(n), a["score"])
    if a["shape"] == "shorter":
        s = s[:-1]
    if a["shape"] == "longer":
        s = np.append(s, 0.5)
    w = None
    if a["weight"] not in ("none",):
        w = np.array([[rng.randint(1, 4) * 1.0 for _ in range(n)] for _ in range(2)]).reshape(2, n)
        if n and a["weight"] in ("zero", "negative", "nan", "inf"):
            w[rng.randrange(2), rng.randrange(n)] = dict(zero=0.0, negative=-pick(1.0, 0.25), nan=NAN, inf=INF)[a["weight"]]
        if a["weight"] == "vector":
            w = w[0]
        if a["weight"] == "short":
            w = w[:, :-1] if n > 1 else np.ones((2, n + 1))
        if a["weight"] == "no-rows":
            w = w[:0]
    y = dict(bool=y, int=y.astype(int), float=y.astype(float))[a["y"]] if a["y"] != "two-d" else y[:, None]
    if a["y"] == "two-d":
        s = s[:, None]
    return getattr(pc, a["f"]), ((y, s) if w is None else (y, s, w))


@op
def curve_boot(a):
    n, k = 5, a["labels"]
    y = labels(a["y"], n, 2)
    if a["y"] == "ok":
        y[:2] = [0, 1]
    if k == 1 and a["y"] == "ok":
        y[:] = 0
    p = logp(n, k)
    if a["nan"]:
        p[rng.randrange(n), rng.randrange(k)] = NAN
    if a["score"] == "-inf":
        p[(n - 1), -1] = -INF
    ref = dict(scalar=0.5, table=logp(n, k), nan=NAN, short=logp(n - 1, k))
    ref["three-labels"] = logp(n, k + 1)
    ref["nan-table"] = logp(n, k)
    ref["nan-table"][rng.randrange(n), rng.randrange(k)] = NAN
    grid = {"default": None, "unit": np.linspace(0, 1, 4), "outside": np.array([0.0, 0.5, pick(1.125, 2.0)]), "negative": np.array([-pick(0.125, 1.0), 0.5, 1.0]), "two-d": np.linspace(0, 1, 4)[:, None]}[a["grid"]]
    return btc.curve_boot, (y, p, ref[a["ref"]], pick(pc.roc_curve, pc.recall_precision_curve)), dict(x_grid=grid, n_boot=a["nboot"], confidence=conf(a["conf"]), pairwise_CI=pick(True, False))


@op
def user_curve(a):
    n = a["n"]
    x = np.linspace(0.0, 1.0, n) if n > 1 else np.array([0.0])
    if a["order"] == "repeats" and n > 2:
        x[1] = x[2]
    if a["order"] == "down":
        x = x[::-1].copy()
    if a["order"] == "zigzag" and n > 2:
        x[1], x[2] = x[2], x[1]
    y = vals(n if a["shape"] == "same" else n + 1)
    x, y = num_in(x, a["x"]), num_in(y, a["y"])
    if a["reach"] == "low":
        x = x * 0.5
    if a["reach"] == "high":
        x = x * 0.5 + 0.5
    whole = rng.random() < 0.5

    def f(yt, score, w=None):
        if w is None and not whole:  # only the resampled curves are malformed
            return (np.array([[0.0, 1.0]]), np.array([[0.5, 0.25]]), "previous"), None
        m = 1 if w is None else len(w)
        if a["dim"] == 1:
            return (x, y, a["kind"]), None
        return (np.repeat(x[None, :], m, axis=0), np.repeat(y[None, :], m, axis=0), a["kind"]), None
    return btc.curve_boot, (np.array([0, 1, 1]), logp(3, 2), pick(0.5, logp(3, 2)), f), dict(x_grid=np.linspace(0, 1, 3), n_boot=4, pairwise_CI=pick(True, False))


@op
def curve_summary_table(a):
    k = a["labels"]
    t = pred_table(5, k, nan=False)
    if a["nan"]:
        t.iloc[rng.randrange(5), rng.randrange(2 * k)] = NAN
    y = labels(a["y"], 5, 2)
    cd = dict(list(btc.STD_BINARY_CURVES.items())[:a["curves"]])
    return btc.curve_summary_table, (t, y, cd, "a" if a["ref"] == "known" else "c"), dict(n_boot=a["nboot"])


@op
def summary_table(a):
    k = a["labels"]
    t = pred_table(5, k)
    if a["nan"]:
        t.iloc[rng.randrange(5), rng.randrange(2 * k)] = NAN
    y = labels(a["y"], 5, k if a["y"] == "top" else 2)
    nll = {m: -np.array([t[m].values[i, int(v)] if v < k else 0.0 for i, v in enumerate(y[:5])]) for m in ("a", "b")}
    lo, hi = limits_of(a["place"], nll, pick("a", "b"))
    return btc.summary_table, (t, y, {"NLL": btc.log_loss}, {"AUC": pc.roc_curve}, "a" if a["ref"] == "known" else "c"), dict(n_boot=10, method_EB=a["method"], limits={"NLL": (lo - 1e-9 * (a["place"] == "at-limits"), hi + 1e-9 * (a["place"] == "at-limits"))})


@op
def class_noise(a):
    k = pick(2, 3)
    return lambda y: btc.JustNoise(k, pick(0.0, 0.5)).fit(np.zeros((len(y), 1)), y), (labels(a["labels"], 4, k),)


@op
def get_pred_log_prob(a):
    k, d = pick(2, 3), pick(2, 3)
    X = design(4, d, float, a["xdim"])
    Xt = design(a["ntest"], d + dict(same=0, fewer=-1, more=1)[a["features"]], float if a["kind"] == "same" else int, a["xdim"])
    fl = {"-inf": -INF, "negative": -pick(0.5, 20.0), "zero": 0.0, "positive": pick(0.5, 3.0), "nan": NAN}[a["floor"]]
    return btc.get_pred_log_prob, (X, labels(a["labels"], 4, k), Xt, k, {"a": Clf(k, "right"), "b": Clf(k, a["answer"])}), dict(min_log_prob=fl)


@op
def class_benchmark(a):
    X, Xt = design(4, 2, float), design(5, 2, float)
    y, yt = labels("ok", 4, 2), labels("ok", 5, 2)
    if a["ytest"] == "short":
        yt = yt[:-1]
    if a["ytest"] == "top":
        yt[0] = 2
    if a["dtypes"] == "other":
        if a["ytest"] != "top" and rng.random() < 0.5:
            yt = yt.astype(bool)
        else:
            yt = yt.astype("int32")
    return btc.just_benchmark, (X, y, Xt, yt, 2, {"a": Clf(2, "right"), "b": Clf(2, "right")}, {"NLL": btc.log_loss}, {"AUC": pc.roc_curve}, "a" if a["ref"] == "known" else "c"), dict(method_EB=a["method"])


@op
def regr_loss(a):
    n = a["n"]
    y, mu, sd = num_in(vals(n), a["y"]), num_in(vals(n), a["mu"]), num_in(np.abs(vals(n)) + 0.5, a["std"])
    if n and a["std"] in ("zero", "negative"):
        sd[rng.randrange(n)] = 0.0 if a["std"] == "zero" else -0.5
    if a["shape"] == "y-short":
        y = y[:-1] if n else np.ones(1)
    if a["shape"] == "mu-short":
        mu = mu[:1] if n else np.ones(1)
    if a["shape"] == "std-short":
        sd = sd[:1] if n else np.ones(1)
    if a["shape"] == "two-d":
        y, mu, sd = y[:, None], mu[:, None], sd[:, None]
    return getattr(btr, a["f"]), (y, mu, sd)


@op
def regr_loss_table(a):
    n = a["n"]
    ms = {"both": ["mu", "std"], "no-mu": ["std"], "no-std": ["mu"]}[a["columns"]]
    cols = pd.MultiIndex.from_product([["a", "b"], ms], names=["method", "moment"])
    t = pd.DataFrame(np.ones((n, len(cols))), columns=cols)
    if n and "std" in ms and a["std"] != "finite":
        t.iloc[rng.randrange(n), list(cols).index((pick("a", "b"), "std"))] = 0.0 if a["std"] == "zero" else NAN
    y = vals(n)
    if a["y"] == "short":
        y = y[:-1] if n else np.ones(1)
    if a["y"] == "nan":
        y = num_in(y, "nan")
    return btr.loss_table, (t, y, {"NLL": btr.log_loss, "MSE": btr.square_loss})


@op
def regr_noise(a):
    y = vals(a["n"])
    y = y if a["dim"] == 1 else y[:, None]

    def f(y, std):
        m = btr.JustNoise()
        m.fit(np.zeros((len(y), 1)), y)
        return m.predict(np.zeros((2, 1)), return_std=std)
    return f, (y, a["std"])


@op
def get_gauss_pred(a):
    d = pick(2, 3)
    X = design(4, d, float, a["xdim"])
    Xt = design(a["ntest"], d + dict(same=0, fewer=-1, more=1)[a["features"]], float if a["kind"] == "same" else int, a["xdim"])
    y = vals(4)
    y = dict(ok=y, short=y[:-1])[a["y"]] if a["y"] != "two-d" else y[:, None]
    fl = dict(zero=0.0, positive=0.5, negative=-pick(0.5, 1e-3), nan=NAN)[a["floor"]]
    return btr.get_gauss_pred, (X, y, Xt, {"a": Reg("right"), "b": Reg(a["answer"])}), dict(min_std=fl)


@op
def regr_benchmark(a):
    X, Xt, y, yt = design(4, 2, float), design(3, 2, float), vals(4), vals(3)
    if a["ytest"] == "short":
        yt = yt[:-1]
    if a["ytest"] == "nan":
        yt[1] = NAN
    if a["dtypes"] == "other":
        yt = yt.astype("float32")
    return btr.just_benchmark, (X, y, Xt, yt, {"a": Reg("right"), "b": Reg("right")}, {"MSE": btr.square_loss}, "a" if a["ref"] == "known" else "c"), dict(method_EB=a["method"])


def column(n, null):
    x = vals(n)
    if null and n:
        x[rng.randrange(n)] = NAN
    return x


@op
def split_df(a):
    n = a["rows"]
    idx = pd.Index(column(n, a["null"])) if a["column"] == "index" else range(n)
    df = pd.DataFrame({"x": column(n, a["null"] and a["column"] != "index"), "y": column(n, a["second"] == "null"), "z": [1] * n}, index=idx)
    f = dict(present="x", absent="w", index=None)[a["column"]]
    sp_ = {f: (a["kind"], conf(a["frac"]))}
    if a["second"] != "no":
        sp_["y"] = (pick("random", "ordered", "linear"), pick(-0.5, 1.5) if a["second"] == "bad-fraction" else 0.5)
    return ds.split_df, (df, sp_)


@op
def split_series(a):
    x = rng.sample(range(20), 5)
    if a["sorted"]:
        x.sort()
    if a["values"] == "times":
        x = [pd.Timestamp(2020, 1, 1 + int(v)) for v in x]
    elif a["values"] == "text":
        x = ["v%02d" % v for v in x]
    else:
        x = [float(v) for v in x]
    if a["null"]:
        x[rng.randrange(1, 4) if a["sorted"] else rng.randrange(5)] = dict(times=pd.NaT, text=None, numbers=NAN)[a["values"]]
    f = {"random": ds.random_split_series, "ordered": ds.ordered_split_series, "linear": ds.linear_split_series}[a["kind"]]
    return f, (pd.Series(x), conf(a["frac"])), dict(assume_unique=a["unique"], assume_sorted=a["sorted"])


@op
def split_config(a):
    df = pd.DataFrame({"x": vals(4), "y": vals(4)})
    if a["none_column"]:
        df.columns = ["x", None]
    return ds.split_df, ((df,) if a["splits"] == "default" else (df, {} if a["splits"] == "none" else {"x": ("ordered", 0.5)}))


@op
def linear_limits(a):
    x = np.sort(vals(5))
    if a["value"] != "finite":
        x[-1 if a["value"] == "inf" else 0] = float(a["value"])
    return ds.linear_split_series, (pd.Series(x), pick(0.25, 0.5)), dict(assume_sorted=a["sorted"])


@op
def rand_subset(a):
    return ds.rand_subset, (np.arange(a["n"]), conf(a["frac"]))


@op
def decimalize(a):
    def cells(m, i, s):
        if s == "error":
            return dict(finite=0.25, zero=0.0, inf=INF, nan=NAN, negative=-pick(0.25, 3.0))[a["error"]] if (m, i) == hit else 0.5
        if s == "p":
            return num(a["p"]) if (m, i) == hit else 0.25
        return 1.5
    hit = (pick("NLL", "acc"), pick(0, 1))
    t = dec_frame(a, 2, cells).astype(float)
    return sp.decimalize, (t,), dict(err_digits=a["err_digits"], pval_digits=a["pval_digits"])


@op
def create_decimal(a):
    return sp.create_decimal, (pick(1.25, 0.0, 1e-3), a["digits"])


@op
def print_estimate(a):
    mu = D("12.34")
    EB = {"matching": D("0.12"), "inf": D("Infinity"), "nan": D("NaN"), "zero": D("0"), "coarser": D("0.1"), "finer": D("0.123"), "negative": D("-0.12")}[a["bar"]]
    kw = {}
    if a["clips"] != "none":
        lo, hi = {"both": (D("-1000"), D("1000")), "equal": (D("100"), D("100")), "crossed": (D("1000"), D("-1000")), "nan-max": (D("-1000"), D("NaN")), "nan-min": (D("NaN"), D("1000"))}[a["clips"]]
        kw = dict(min_clip=lo, max_clip=hi)
    return sp.print_estimate, (mu, EB, {"ok": pick(-3, 0, 1), "limit": 2, "too-far": pick(3, 4, 7)}[a["shift"]]), kw


@op
def print_pval(a):
    p = D("NaN") if a["p"] == "nan" else D(str(float(num(a["p"])))).quantize(D("0.0001"))
    return sp.print_pval, (p,)


def decs(n, mean):
    x = [D("%d.%02d" % (rng.randint(1, 99), rng.randint(0, 99))) for _ in range(n)]
    if n and mean != "finite":
        x[rng.randrange(n)] = D("Infinity") if mean == "inf" else D("NaN")
    return x


@op
def get_shift_range(a):
    return sp.get_shift_range, (decs(a["n"], a["mean"]), a["mod"])


@op
def find_shift(a):
    x = decs(a["n"], a["mean"])
    e = [D("0.11")] * (a["n"] + dict(same=0, fewer=-1 if a["n"] else 1, more=1)[a["errs"]])
    return sp.find_shift, (x, e, a["mod"])


@op
def format_table(a):
    rows = a["rows"]
    hit = (pick("NLL", "acc"), rng.randrange(max(rows, 1)))

    def cells(m, i, s):
        if s == "error":
            return D("0.25")
        if s == "p":
            return D("0.250") if a["p"] == "mixed-places" and (m, i) == hit else D("0.2500")
        if s == "median":
            return D("1.5")
        return D(pick("Infinity", "-Infinity")) if a["mean"] == "inf" and (m, i) == hit else D("1.50")
    return sp.format_table, (dec_frame(a, rows, cells),), dict(shift_mod=a["mod"])


@op
def adjust_headers(a):
    return sp.adjust_headers, ([("NLL", "estimate"), ("acc", a["stat"])], {"NLL": 0, "acc" if a["shift"] == "known" else "other": 3}, {}), dict(use_tex=a["tex"])


@op
def table_to_text(a):
    cols = pd.MultiIndex.from_product([["NLL"], ["estimate", "p"]], names=["metric", "stat"] if a["names"] == "right" else ["stat", "metric"])
    t = pd.DataFrame([["1.5", "0.1"]], index=["m"], columns=cols)
    return (sp.table_to_latex if a["tex"] else sp.table_to_string), (t, {"NLL" if a["shift"] == "known" else "acc": 0}, {})


@op
def pad_num_str(a):
    L = ["%d.%d(1)" % (rng.randint(0, 9), rng.randint(0, 99)) for _ in range(a["others"])]
    L.insert(rng.randint(0, len(L)), {"number": "1.5", "starts-with-point": ".5", "starts-with-paren": "(5)", "empty": ""}[a["text"]])
    return sp.pad_num_str, (L,)


@op
def digit_str(a):
    return sp.digit_str, (D(dict(finite="1.25", inf="Infinity", nan="NaN")[a["x"]]),)


@op
def one_hot(a):
    k = a["nlabels"]
    return util.one_hot, (labels(a["labels"], a["n"], max(k, 1)), k)


@op
def normalize(a):
    n, k = a["n"], a["cols"]
    x = vals(n * k).reshape(n, k)
    return util.normalize, ({1: x.ravel(), 2: x, 3: x[:, :, None]}[a["dim"]],)


@op
def epsilon_noise(a):
    x = np.full(4, 0.5) if a["constant"] else np.array([0.5, 1.0, 1.5, 3.0])
    x = num_in(x, a["x"])
    kw = {}
    if a["eps"] != "default":
        kw = dict(default_epsilon={"zero": 0.0, "negative": -0.5, "above-max": 3.0}[a["eps"]])
    return util.epsilon_noise, (x if a["dim"] == 1 else x.reshape(2, 2),), kw


@op
def unique_take_last(a):
    x = {"up": [0.0, 1.0, 2.0], "repeats": [0.0, 0.0, 2.0], "down": [2.0, 1.0, 0.0], "zigzag": pick([0.0, 2.0, 1.0], [1.0, 0.0, 2.0])}[a["order"]]
    x = np.array(x[:a["n"]])
    x = num_in(x, "nan" if a["nan"] else "finite")
    y = None if a["y"] == "none" else vals(len(x) - (a["y"] == "short" and len(x) > 0))
    return util.unique_take_last, ((x,) if y is None else (x, y))


@op
def cummax_strict(a):
    x = vals(4, a["nan"])
    return util.cummax_strict, (x if a["dim"] == 1 else x.reshape(2, 2),)


@op
def eval_step_func(a):
    x = np.array([1.0, 1.0, 2.0] if a["repeats"] else [1.0, 1.5, 2.0])
    y = vals(3 if a["shape"] == "same" else pick(1, 2, 4))
    g = np.array([]) if a["grid"] == 0 else np.array([pick(0.0, 0.5), 1.75] if a["before"] else [1.0, 1.75, 5.0])
    if a["grid"] == 2:
        g = g[:, None]
    kw = {}
    if a["ival"] != "none":
        kw["ival"] = 0.25 if a["ival"] == "scalar" else np.array([0.25, 0.5])
    if a["skip"]:
        kw["skip_unique_chk"] = True
    return util.eval_step_func, (g, x, y), kw


@op
def interp1d(a):
    n = a["n"]
    x = np.linspace(0.0, 1.0, n) if n > 1 else np.zeros(1)
    y = vals(n if a["shape"] == "same" else n + 1)
    if a["order"] == "down":
        x = x[::-1].copy() if n > 1 else x
    if a["order"] == "zigzag" and n > 3:
        x[1], x[2] = x[2], x[1]
    g = np.array([0.25, 0.5] + dict(inside=[0.75], below=[-0.25], above=[1.25])[a["grid"]])
    g.sort()
    return util.interp1d, (g, x[None, :], y[None, :], a["kind"])


@op
def area(a):
    n = a["n"]
    x, y = np.linspace(0, 1, n), vals(n if a["shape"] == "same" else n + pick(1, 2))
    if a["nan"] == "x":
        x = num_in(x, "nan")
    if a["nan"] == "y":
        y = num_in(y, "nan")
    return util.area, ((x[None, :], y[None, :]) if a["dim"] == 2 else (x, y)) + (a["kind"],)


@op
def clip_chk(a):
    lo, hi = pick((0.0, 1.0), (-2.0, 2.0))
    x = dict(inside=(lo + hi) / 2 + 0.25, rounding=pick(lo - 1e-12, hi + 1e-12), outside=pick(lo - 0.125, hi + 0.125, hi + 100.0), nan=NAN)[a["x"]]
    return util.clip_chk, (x, lo, hi)


# in 'latex' export jinja2 is missing: stand-in
pd.DataFrame.to_latex = lambda self, *a, **k: self.to_string()

byop = {}
for c in cases(sys.argv[3:]):
    byop.setdefault((c["op"], min(c["faults"], 2)), []).append(c)
missing = {o for o, _ in byop} - set(OPS)
assert not missing, missing
for (o, k), cs in sorted(byop.items()):
    rng.shuffle(cs)
    cap = N({0: 150, 1: 400, 2: 40}[k], {0: 1000, 1: 2000, 2: 1500}[k])
    reps = max(1, min(N(4, 12), (N(40, 200) if k < 2 else 1) // len(cs)))
    for c in cs[:cap]:
        for _ in range(reps):
            made = OPS[o](c["a"])
            f, args, kw = made if len(made) == 3 else made + ({},)
            np.random.seed(rng.randrange(2 ** 31))
            st, r = call(f, *args, **kw)
            R.ev(o, a=c["a"], status=st, exc=r if st == "exc" else "")
R.close()
