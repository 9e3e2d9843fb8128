"""Records curve_boot, curve_summary_table and summary_table runs (C16, C17).
The curve functions handed to the library record every call."""
from common import *
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
INF = float("inf")
from taps import F, USER, Tap
SOME = list(F) * 4 + ["flip", "flip", "drop"]


def cell(tap, nb, y, s, sr, scalar, summ, df, skip=0, same=False):
    """skip: replicates of the method's scores belonging to other cells"""
    rows = tap.rows(s)
    if scalar is None:
        refs = {}
        for w, c in tap.rows(sr):
            refs.setdefault(w.tobytes(), c)
        witness = all(w.tobytes() in refs for w, _ in rows)
    else:
        refs, witness = {}, True
    if same and len(rows) == 2 * nb:  # the reference itself: evaluated twice on the same weights
        witness = witness and all(rows[k][0].tobytes() == rows[k + nb][0].tobytes() for k in range(nb))
        rows = rows[:nb]
    reps = [dict(w=XS(w), c=c, rc=refs.get(w.tobytes(), c)) for w, c in rows]
    cols = list(df.columns) if df is not None else []
    names = ["x_grid", "y_grid", "y_LB", "y_UB"]
    cn = list(const.CURVE_STATS)
    good = df is not None and cols == cn
    v = df.values if good else []
    return dict(curve=tap.name, s=XS(s), sr=XS(sr) if sr is not None else [], scalar=scalar is not None, ref=X(scalar) if scalar is not None else "nan",
                mu=X(summ[0]), eb=X(summ[1]), p=X(summ[2]), nanEB=False, nanP=False, reps=reps, witness=bool(witness and len(rows) > 0),
                labels=bool(tap.labels_ok(y) and good),
                rows=[dict(x=X(r[0]), y=X(r[1]), lo=X(r[2]), hi=X(r[3])) for r in v])


def preds(n, kind=None):
    t = rng.random()
    if t < 0.35:
        q = np.array([rng.choice([0.125, 0.25, 0.5, 0.75]) for _ in range(n)])
    elif t < 0.8:
        q = np.array([rng.uniform(0.01, 0.99) for _ in range(n)])
    else:
        q = np.array([rng.choice([0.3, 0.6, 0.9]) for _ in range(n)])
    p = np.log(np.stack((1 - q, q), axis=1))
    if rng.random() < 0.2:  # unnormalized rows
        p = p + np.array([[rng.uniform(-1, 1)] for _ in range(n)])
    return p


def grid():
    t = rng.random()
    if t < 0.04:
        return np.linspace(0, 1, rng.choice([101, 150, 200]))
    if t < 0.15:
        return None
    if t < 0.6:
        return np.linspace(0, 1, rng.choice([2, 3, 5, 9]))
    g = [rng.choice([0.0, 1.0, 0.5, 0.25, rng.random(), 1 / 3.]) for _ in range(rng.randint(1, 5))]
    return np.array(g if t > 0.85 else sorted(g))


def G(g):
    return XS(np.linspace(0.0, 1.0, 100) if g is None else g)


def labels(n):
    y = [rng.randint(0, 1) for _ in range(n)]
    if len(set(y)) == 1:
        y[rng.randrange(n)] ^= 1
    return np.array(y, dtype=rng.choice([bool, int, int]))


def boot(y, p, ref, name, nb, pair, conf, g):
    tap = Tap(name)
    kw = dict(curve_f=tap, n_boot=nb)
    if nb == 1000:
        del kw["n_boot"]
    if g is not None or rng.random() < 0.5:
        kw["x_grid"] = g
    if conf != 0.95 or rng.random() < 0.5:
        kw["confidence"] = conf
    if pair is not None:
        kw["pairwise_CI"] = pair
    st, o = call(btc.curve_boot, y, p, ref, **kw)
    scal = None if np.ndim(ref) == 2 else float(ref)
    sr = ref[:, 1] if scal is None else None
    e = dict(y=[int(v) for v in y], conf=X(conf), pairwise=bool(const.PAIRWISE_DEFAULT if pair is None else pair), nb=nb, grid=G(g), status=st)
    e["cell"] = cell(tap, nb, y, p[:, 1], sr, scal, o[0], o[1], same=sr is not None and np.array_equal(sr, p[:, 1])) if st == "ok" else {}
    R.ev("boot", **e)


def c16():
    cs = list(cases(sys.argv[3:]))
    rng.shuffle(cs)
    for c in cs[:N(120, 384)]:
        y = np.array(c["y"], dtype=rng.choice([bool, int]))
        p, r = ([np.array([[-num(v), num(v)] for v in c[k]]) for k in ("m", "r")])
        boot(y, p, r, rng.choice(SOME), rng.choice([1, 3, 10, 21]), rng.choice([True, False, None]), rng.choice([0.95, 0.5, 0.8]), np.array([0.0, 0.5, 1.0]))
    for _ in range(N(220, 1500)):
        n = rng.choice([2, 3, 4, 6, 8, 12])
        y, p = labels(n), preds(n)
        name = rng.choice(SOME)
        t = rng.random()
        if t < 0.25:
            ref = rng.choice([0.5, 0.5, 0.0, 1.0, 0.25])
        elif t < 0.4:
            ref = p.copy()
        else:
            ref = preds(n)
        nb = rng.choice([1, 2, 7, 20, 21, 41, 60])
        g = grid()
        boot(y, p, ref, name, nb if g is not None else min(nb, 20), rng.choice([True, False, None]), rng.choice([0.95, 0.95, 0.5, 0.8, 0.99]), g)


    for _ in range(N(6, 30)):  # the default number of resamples
        n = rng.choice([4, 5])
        y, p = labels(n), preds(n)
        boot(y, p, rng.choice([0.5, preds(n)]), rng.choice(SOME), 1000, rng.choice([True, False, None]), rng.choice([0.95, 0.99, 0.9]), np.array([0.0, 0.5]))
    for _ in range(N(12, 100)):  # larger data sets
        n = rng.choice([30, 60, 101, 150])
        y, p = labels(n), preds(n)
        boot(y, p, rng.choice([0.5, preds(n), preds(n)]), rng.choice(SOME), rng.choice([3, 10, 21]), rng.choice([True, False, None]), rng.choice([0.95, 0.5, 0.8]), grid())


    for n, nb in [(2, 1), (2, 2), (3, 1), (3, 3)]:
        resamples(n, nb)


def resamples(n, nb):
    """The weightings that many small runs use, by the position of the replicate."""
    runs = N(300, 2000)
    y, p = labels(n), preds(n)
    rows, st = [[] for _ in range(nb)], "ok"
    for _ in range(runs):
        tap = Tap(rng.choice(list(F)))
        st, o = call(btc.curve_boot, y, p, 0.5, curve_f=tap, n_boot=nb, x_grid=np.array([0.0, 1.0]))
        got = [w for w, _ in tap.rows(p[:, 1], encode=False)] if st == "ok" else []
        if st != "ok" or len(got) != nb:
            break
        for k in range(nb):
            rows[k].append(XS(np.where(got[k] <= 1e-6, 0, got[k])))
    R.ev("resamples", n=n, nb=nb, runs=runs, status=st, rows=rows)


METHODS = ["svm", "rf", "GP", "noise", "m10", "m2", "B", "a"]
CNAMES = ["AUC", "AP", "AUPRG", "c1", "Z"]


def table(full):
    n = rng.choice([2, 3, 4, 6, 8, 12])
    y = labels(n)
    if not full and rng.random() < 0.3 and y.dtype.kind == "b":
        pass
    methods = rng.sample(METHODS, rng.randint(1, 4))
    if rng.random() < 0.06:
        methods = rng.sample(METHODS + ["x%d" % i for i in range(8)], rng.randint(8, 12))
    P = {}
    for m in methods:  # distinct scores identify the method
        while True:
            P[m] = preds(n)
            if all(k == m or not np.array_equal(P[k][:, 1], P[m][:, 1]) for k in P):
                break
    ref = rng.choice(methods)
    names = rng.sample(CNAMES, rng.randint(1, 3))
    taps = {c: Tap(rng.choice(SOME)) for c in names}
    cols = [(m, k) for m in methods for k in (0, 1)]
    df = pd.DataFrame({c: P[c[0]][:, c[1]] for c in cols})
    df.columns = pd.MultiIndex.from_tuples(list(df.columns), names=["method", "label"])
    if rng.random() < 0.3:
        df.index = rng.choice([["r%d" % i for i in range(n)][::-1], rng.sample(range(n), n), rng.sample(range(n), n)])
    if rng.random() < 0.2 and len(methods) > 1 and methods[-1] != ref:
        drop = methods.pop()
        df = df[[c for c in df.columns if c[0] != drop]]
    nb, g, conf, pair = rng.choice([5, 6, 20, 21] if n > 3 else [20, 21, 25]), grid(), rng.choice([0.95, 0.95, 0.5, 0.8]), rng.random() < 0.5
    g = np.array([0.0, 0.5, 1.0]) if g is None and rng.random() < 0.7 else g
    kw = dict(n_boot=nb)
    if g is not None or rng.random() < 0.5:
        kw["x_grid"] = g
    if conf != 0.95 or rng.random() < 0.5:
        kw["confidence"] = conf
    if pair or rng.random() < 0.5:
        kw["pairwise_CI"] = pair
    how, limits, losses = "t", {}, {}
    if full:
        how = rng.choice(["t", "bernstein"] + (["boot", "boot"] if n <= 4 else []))
        losses = {k: v for k, v in btc.STD_CLASS_LOSS.items() if rng.random() < 0.6} or {"NLL": btc.log_loss}
        if "zero_one" in losses and rng.random() < 0.7:
            limits["zero_one"] = (0.0, 1.0)
        if "Brier" in losses and rng.random() < 0.7:
            limits["Brier"] = (0.0, 4.0)
        if how != "t" or rng.random() < 0.5:
            kw["method_EB"] = how
        if limits or rng.random() < 0.5:
            kw["limits"] = limits
        ltab = btc.loss_table(df, y, losses)
        st, o = call(btc.summary_table, df, y, losses, dict(taps), ref, **kw)
    else:
        st, o = call(btc.curve_summary_table, df, y, dict(taps), ref, **kw)
    ok = st == "ok"
    lab = False
    if ok:
        t, dump = o
        lab = sorted(t.index) == sorted(methods) and t.index.name == "method" and list(t.columns.names) == ["metric", "stat"] and \
            sorted(t.columns) == sorted((c, s) for c in list(names) + list(losses) for s in ("mean", "error", "p")) and \
            sorted(dump) == sorted((m, c) for m in methods for c in names)
    cells, metrics = [], []
    if lab:
        for c in names:
            for m in methods:
                x = cell(taps[c], nb, y, P[m][:, 1], P[ref][:, 1], None, [t.loc[m, (c, s)] for s in ("mean", "error", "p")], dump[(m, c)])
                if m == ref:
                    # the reference is also evaluated for every other method: keep the evaluations that are its own
                    others = {w.tobytes() for k in methods if k != ref for w in taps[c].mats(P[k][:, 1])}
                    mine = [w for w in taps[c].mats(P[ref][:, 1]) if w.tobytes() not in others] or taps[c].mats(P[ref][:, 1])
                    keep, seen = [], set()
                    for w in mine:
                        if w.tobytes() not in seen:
                            seen.add(w.tobytes())
                            keep.extend(XS(r) for r in w)
                    by = {"|".join(r["w"]): r for r in x["reps"]}
                    x["reps"] = [by["|".join(w)] for w in keep]
                    x["nanP"], x["nanEB"] = True, pair
                cells.append(x)
        for k in losses:
            lo, hi = limits.get(k, (-INF, INF))
            metrics.append(dict(name=k, lo=X(lo), hi=X(hi), cells=[dict(method=m, loss=XS(ltab[(k, m)].values), mean=X(t.loc[m, (k, "mean")]),
                                                                   error=X(t.loc[m, (k, "error")]), p=X(t.loc[m, (k, "p")])) for m in methods]))
    R.ev("table", y=[int(v) for v in y], conf=X(conf), pairwise=pair, nb=nb, grid=G(g), status=st, labels=bool(lab), cells=cells, metrics=metrics,
         ref=ref, how=how)


def dup():
    """Some methods make exactly the same predictions."""
    n = rng.choice([2, 4, 6, 9, 15])
    y = labels(n)
    methods = rng.sample(METHODS, rng.randint(2, 5))
    base = [preds(n) for _ in range(rng.randint(1, 2))]
    P = {m: base[rng.randrange(len(base))] for m in methods}
    ref, names = rng.choice(methods), rng.sample(CNAMES, rng.randint(1, 2))
    kinds = {c: rng.choice(SOME) for c in names}
    cols = [(m, k) for m in methods for k in (0, 1)]
    df = pd.DataFrame({c: P[c[0]][:, c[1]] for c in cols})
    df.columns = pd.MultiIndex.from_tuples(list(df.columns), names=["method", "label"])
    pair = rng.random() < 0.6
    st, o = call(btc.curve_summary_table, df, y, {c: USER[k] for c, k in kinds.items()}, ref, n_boot=rng.choice([1, 5, 20]), x_grid=np.array([0.0, 1.0]), pairwise_CI=pair)
    lab = st == "ok" and sorted(o[0].index) == sorted(methods) and sorted(o[0].columns) == sorted((c, s) for c in names for s in ("mean", "error", "p"))
    cells = [dict(curve=kinds[c], s=XS(P[m][:, 1]), ref=m == ref, same=P[m] is P[ref], refmu=X(o[0].loc[ref, (c, "mean")]), mu=X(o[0].loc[m, (c, "mean")]), eb=X(o[0].loc[m, (c, "error")]),
                  p=X(o[0].loc[m, (c, "p")])) for c in names for m in methods] if lab else []
    R.ev("dup", y=[int(v) for v in y], pairwise=pair, status=st, labels=bool(lab), cells=cells)


def c17():
    for i in range(N(100, 700)):
        table(i % 2 == 1)
    for i in range(N(80, 500)):
        dup()


dict(C16=c16, C17=c17)[prop]()
R.close()
