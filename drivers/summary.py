"""Records calls of mlpaper.loss_summary_table (C07)."""
from common import *
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
INF = float("inf")
METRICS = ["NLL", "Brier", "zero_one", "AUC", "a", "0-1"]
METHODS = ["svm", "rf", "GP", "noise", "m10", "m2", "B", "a"]
SPAN = dict(unit=(0.0, 1.0), narrow=(2.0, 0.125), neg=(-3.0, 1.0), tiny=(0.0, 2.0 ** -27), huge=(0.0, 2.0 ** 29))
DTYPES = dict(flag=["bool", "bool", "uint8", "int8", "int64", "uint64", "float32"], count=["uint8", "uint8", "uint16", "int64", "float32"])
MORE = ["x%d" % i for i in range(12)]


def record(data, metrics, methods, ref, pairwise, conf, how, limits, order="shuffle", index=None, dtype=None):
    """data[metric][method]: list of losses"""
    n = len(data[metrics[0]][methods[0]])
    cols = [(m, k) for m in metrics for k in methods]
    if order == "shuffle":
        rng.shuffle(cols)
    dt = {c: (rng.choice(DTYPES[dtype[c[0]]]) if dtype and c[0] in dtype else float) for c in cols}
    df = pd.DataFrame({c: pd.Series(data[c[0]][c[1]], dtype=float).astype(dt[c]) for c in cols})
    df = df[cols]
    df.columns = pd.MultiIndex.from_tuples(cols, names=["metric", "method"])
    df.index = index if index is not None else range(n)
    if order == "dropped":  # a method and a metric dropped from a larger table
        extra = pd.DataFrame({(m, k): [0.5] * n for m in metrics + ["zz"] for k in methods + ["dropped"]}, index=df.index)
        extra.columns = pd.MultiIndex.from_tuples(list(extra.columns), names=["metric", "method"])
        for c in cols:
            extra[c] = df[c]
        df = extra.loc[:, [c for c in extra.columns if c[0] != "zz" and c[1] != "dropped"]]
    kw = {}
    if pairwise or rng.random() < 0.5:
        kw["pairwise_CI"] = pairwise
    if conf != 0.95 or rng.random() < 0.5:
        kw["confidence"] = conf
    if how != "t" or rng.random() < 0.5:
        kw["method_EB"] = how
    if limits or rng.random() < 0.5:
        kw["limits"] = limits
    st, o = call(bt.loss_summary_table, df, ref, **kw)
    labels = False
    if st == "ok":
        labels = sorted(o.index) == sorted(methods) and sorted(o.columns) == sorted((m, s) for m in metrics for s in ("mean", "error", "p")) \
            and list(o.columns.names) == ["metric", "stat"] and o.index.name == "method"
    ms = []
    for m in metrics:
        lo, hi = limits.get(m, (-INF, INF))
        cells = []
        for k in methods:
            c = dict(method=k, loss=XS(data[m][k]))
            for s in ("mean", "error", "p"):
                c[s] = X(o.loc[k, (m, s)]) if labels else "nan"
            cells.append(c)
        ms.append(dict(name=m, lo=X(lo), hi=X(hi), cells=cells))
    R.ev("summary", ref=ref, pairwise=pairwise, conf=X(conf), how=how, status=st, labels=bool(labels), metrics=ms)


def losses(n, kind):
    if kind == "unit":
        return [rng.randint(0, 16) / 16 for _ in range(n)]
    if kind == "01":
        return [float(rng.randint(0, 1)) for _ in range(n)]
    if kind == "narrow":  # far from zero, nearly constant: the limits are tight and positive
        return [2 + rng.randint(0, 8) / 64 for _ in range(n)]
    if kind == "neg":
        return [-3 + rng.randint(0, 16) / 16 for _ in range(n)]
    if kind == "tiny":
        return [rng.random() * 1e-8 for _ in range(n)]
    if kind == "huge":
        return [rng.random() * 1e9 for _ in range(n)]
    if kind == "const":
        return [rng.choice([0.0, 0.5, 1.0])] * n
    if kind == "log":
        x = [rng.expovariate(1) for _ in range(n)]
        if rng.random() < 0.25:
            x[rng.randrange(n)] = INF
        return x
    if kind == "score":
        x = [-rng.expovariate(1) * 10 for _ in range(n)]
        if rng.random() < 0.15:
            x[rng.randrange(n)] = -INF
        return x
    return [rng.gauss(rng.choice([0, 1]), 1) for _ in range(n)]


LIM = dict(unit=[(0.0, 1.0), (0.0, 1.0), (0.0, 2.0), (-1.0, 3.0), (0.0, INF), (-INF, INF)], const=[(0.0, 1.0), (0.0, 1.5)],
           log=[(0.0, INF), (-INF, INF)], score=[(-INF, 0.0), (-INF, INF)], gauss=[(-50.0, 50.0), (-INF, INF)])
LIM["01"] = LIM["unit"]
LIM.update(narrow=[(2.0, 2.125), (2.0, 2.125), (1.5, 2.5), (1.0, INF), (-INF, 3.0)], neg=[(-3.0, -2.0), (-4.0, -1.0), (-INF, -1.0)],
           tiny=[(0.0, 1e-8), (0.0, 1.0), (-INF, INF)], huge=[(0.0, 1e9), (0.0, INF), (-INF, INF)])

cs = list(cases(sys.argv[3:]))
rng.shuffle(cs)
for c in cs[:N(250, 4000)]:
    a, b = [num(v) for v in c["a"]], [num(v) for v in c["b"]]
    inf = any(v == INF for v in a + b)
    lim = rng.choice([{}, {"m": (0.0, INF)}]) if inf else rng.choice([{}, {"m": (0.0, 1.0)}, {"m": (0.0, 1.0)}, {"m": (-1.0, 2.0)}])
    ref = rng.choice(["a", "b"])
    record({"m": {"a": a, "b": b}}, ["m"], ["a", "b"], ref, rng.random() < 0.5, rng.choice([0.95, 0.5, 0.9]),
           rng.choice(["t", "t", "bernstein", "boot"]), lim)
for _ in range(N(420, 4000)):
    metrics, methods = rng.sample(METRICS, rng.randint(1, 3)), rng.sample(METHODS, rng.randint(1, 4))
    how = rng.choice(["t", "t", "t", "bernstein", "bernstein", "boot"])
    n = rng.choice([2, 3, 3, 4]) if how == "boot" else rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
    if _ % 12 == 0:
        metrics, methods = rng.sample(METRICS, rng.randint(1, 2)), rng.sample(METHODS, rng.randint(2, 3))
        n = rng.choice([80, 101, 201, 300, 501])
    elif _ % 12 == 1:
        metrics, methods = metrics[:2], rng.sample(METHODS + MORE, rng.randint(8, 14))
    elif _ % 12 == 2:
        metrics, methods = rng.sample(METRICS + MORE, rng.randint(6, 12)), methods[:2]
    data, limits = {}, {}
    for m in metrics:
        kinds = ["unit", "01", "const", "unit", "narrow", "neg"] + ([] if how == "boot" else ["log", "score", "gauss", "log", "tiny", "huge"])
        if how == "bernstein":
            kinds = kinds + ["narrow", "neg", "unit"] * 3
        kind = rng.choice(kinds)
        data[m] = {k: losses(n, kind) for k in methods}
        if kind in SPAN and n >= 12 and rng.random() < 0.7:  # methods that differ clearly
            a, w = SPAN[kind]
            for k in methods:
                f = rng.choice([0, 0, 0.5, 0.875])
                data[m][k] = [a + w * (f + rng.randint(0, 8) / 64) for _ in range(n)]
        elif rng.random() < 0.3 and len(methods) > 1:
            data[m][methods[0]] = list(data[m][methods[1]])
        l = rng.choice(LIM[kind])
        if kind == "gauss" and l[0] == -50.0 and any(abs(v) > 50 for k in methods for v in data[m][k]):
            l = (-INF, INF)
        if l != (-INF, INF) or rng.random() < 0.5:
            limits[m] = l
    if rng.random() < 0.04:
        data[metrics[0]][rng.choice(methods)][0] = float("nan")
    index = rng.choice([None, rng.sample(range(n), n), ["r%d" % i for i in range(n)], list(range(n, 0, -1)), [5] * n])
    record(data, metrics, methods, rng.choice(methods), rng.random() < 0.5, rng.choice([0.95, 0.95, 0.5, 0.99, 0.8]), how, limits,
           rng.choice(["std", "shuffle", "shuffle", "dropped"]), index)
# losses kept as flags or counts, not as floats
for _ in range(N(60, 400)):
    metrics, methods = rng.sample(METRICS, rng.randint(1, 2)), rng.sample(METHODS, rng.randint(2, 4))
    how = rng.choice(["t", "t", "bernstein", "boot"])
    n = rng.choice([2, 3, 4]) if how == "boot" else rng.choice([2, 3, 5, 8, 20, 40])
    kinds = {m: rng.choice(["flag", "flag", "count"]) for m in metrics}
    top = {m: 1 if kinds[m] == "flag" else rng.choice([3, 200, 255]) for m in metrics}
    data = {m: {k: [float(rng.randint(0, top[m])) for _ in range(n)] for k in methods} for m in metrics}
    limits = {m: rng.choice([(0.0, float(top[m])), (-1.0, 256.0)]) for m in metrics if how == "bernstein" or rng.random() < 0.5}
    record(data, metrics, methods, rng.choice(methods), rng.random() < 0.5, rng.choice([0.95, 0.8]), how, limits, rng.choice(["std", "shuffle"]),
           dtype=kinds if rng.random() < 0.8 else {metrics[0]: kinds[metrics[0]]})
# means that round just outside their limits
for v in [0.1, 0.7, 1 / 3., 0.9, 1.1]:
    for n in (3, 6, 7, 10):
        record({"m": {"a": [v] * n, "b": [0.0] * n}}, ["m"], ["a", "b"], rng.choice(["a", "b"]), rng.random() < 0.5, 0.95, "t", {"m": (0.0, v)})
R.close()
