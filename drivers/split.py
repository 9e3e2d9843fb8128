"""Records splits and lag frames (C25 - C27)."""
from common import *
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
FN = dict(random=ds.random_split_series, ordered=ds.ordered_split_series, linear=ds.linear_split_series)
KINDS = list(FN)
FRACS = [0.0, 0.25, 0.5, 0.75, 1.0, 0.8, 0.2, 0.1, 0.7, 0.9, 1 / 3, 2 / 3, 0.6, 0.3, 0.125]


def frac_():
    t = rng.random()
    if t < 0.6:
        return rng.choice(FRACS)
    if t < 0.8:
        m = rng.randint(2, 12)
        return rng.randint(0, m) / m
    return rng.random()


def dyadic(x, bits=16):
    return float(x) * 2 ** bits == int(float(x) * 2 ** bits) and abs(x) < 2 ** 20


def ranks(vals):
    u = sorted(set(vals))
    return [X(u.index(v)) for v in vals]


def column(n, few=None, kinds=("int", "float", "dyad", "str", "date", "bool", "neg")):
    """(python values, spec values, numeric?)"""
    k = rng.choice(kinds)
    m = few or rng.choice([1, 2, 3, 5, n, n, 2 * n + 1])
    if k == "int":
        pool = rng.sample(range(-50, 100) if m <= 100 else range(-5000, 10000), max(1, min(m, 3000)))
    elif k == "neg":
        pool = [-x for x in rng.sample(range(1, 200), max(1, min(m, 100)))]
    elif k == "dyad":
        pool = [x / 4 for x in rng.sample(range(-100, 100), max(1, min(m, 100)))]
    elif k == "float":
        pool = [rng.uniform(-1, 1) * 10 ** rng.randint(-2, 6) for _ in range(m)]
    elif k == "str":
        pool = ["%s%d" % (rng.choice("abAB"), i) for i in rng.sample(range(200), max(1, min(m, 100)))]
    elif k == "date":
        pool = [pd.Timestamp("2020-01-01") + pd.Timedelta(days=i) for i in rng.sample(range(1000), max(1, min(m, 100)))]
    else:
        pool = [False, True]
    if few is None and len(pool) >= n and rng.random() < 0.6:
        v = pool[:n]
        if rng.random() < 0.4:
            v = sorted(v)
    else:
        v = [rng.choice(pool) for _ in range(n)]
        if rng.random() < 0.3:
            v = sorted(v)
    numeric = k in ("int", "neg", "dyad", "float")
    return v, (XS(v) if numeric else ranks(v)), numeric


def is_exact(v, frac, numeric, kind="linear"):
    if kind == "ordered":  # the fraction is the float image of a share, or not near one
        m = len(set(v))
        return all(frac == k / m or abs(frac - k / m) > 1e-9 for k in range(m + 1))
    return bool(numeric and dyadic(frac) and all(dyadic(x, 4) for x in v))


def some_index(n):
    t = rng.random()
    if t < 0.3:
        return pd.RangeIndex(n)
    if t < 0.5:
        return pd.Index(rng.sample(range(max(1000, 2 * n)), n))
    if t < 0.65:
        return pd.Index([rng.choice("abc") for _ in range(n)])  # duplicates
    if t < 0.8:
        return pd.Index([rng.randint(0, 3) for _ in range(n)], name="who")
    if t < 0.9:
        return pd.Index([float(x) / 4 for x in rng.sample(range(max(500, 2 * n)), n)])
    return pd.Index(["r%d" % x for x in rng.sample(range(max(500, 2 * n)), n)], name="id")


def mask_event(v, vs, numeric, kind, frac):
    S = pd.Series(v, index=some_index(len(v)), name="c")
    is_sorted = all(v[i] <= v[i + 1] for i in range(len(v) - 1))
    is_unique = len(set(v)) == len(v)
    seed = rng.randint(0, 10 ** 9)
    np.random.seed(seed)
    st, m = call(FN[kind], S.copy(), frac)
    ok = st == "ok"
    aligned = ok and list(m.index) == list(S.index) and m.dtype == bool
    mask = [bool(x) for x in m.values] if ok else []
    hinted = mask
    for srt in ([False, True] if is_sorted else [False]):
        for unq in ([False, True] if is_unique else [False]):
            np.random.seed(seed)
            st2, m2 = call(FN[kind], S.copy(), frac, assume_sorted=srt, assume_unique=unq)
            h = [bool(x) for x in m2.values] if st2 == "ok" else []
            if h != mask:
                hinted = h
    R.ev("mask", status=st, c=dict(v=vs, kind=kind, frac=X(frac), exact=is_exact(v, frac, numeric, kind)), mask=mask, aligned=bool(aligned), hinted=hinted, seed=seed)


def freq_event(m, frac, n, uniq):
    vals = list(range(10, 10 + m))
    v = vals if uniq else sorted(vals * 2)
    if rng.random() < 0.5:
        v = list(v)
        rng.shuffle(v)
    S = pd.Series(v)
    np.random.seed(rng.randint(0, 10 ** 9))
    sets = []
    for _ in range(n):
        mk = ds.random_split_series(S, frac, assume_unique=uniq)
        sets.append(XS(sorted(set(S[mk.values]))))
    R.ev("freq", c=dict(v=XS(v), kind="random", frac=X(frac), exact=True), sets=sets)


def cell(x):
    if x is None or (isinstance(x, float) and math.isnan(x)) or x is pd.NaT or x is pd.NA:
        return "nan"
    if isinstance(x, (bool, np.bool_, int, float, np.integer, np.floating)):
        return X(float(x))
    return "s:" + str(x)


def rows_of(df):
    cols = [df.iloc[:, j].tolist() for j in range(df.shape[1])]
    idx = list(df.index)
    return [dict(label=cell(idx[i]) if not isinstance(idx[i], tuple) else str(idx[i]), cells=[cell(c[i]) for c in cols]) for i in range(len(df))]


def split_event(n, ncols, kinds=None, via_default=False):
    idx = some_index(n)
    data, spec = {"rid": list(range(1, n + 1))}, {}
    names = ["a", "b", "c d", 7][:max(ncols, 2)]
    for nm in names:
        v, vs, numeric = column(n, few=rng.randint(1, 5) if ncols > 1 else None)
        data[nm], spec[nm] = v, (v, vs, numeric)
    data["z"] = [rng.choice([1.5, float("nan"), -2.0]) for _ in range(n)]
    data["obj"] = [rng.choice(["x", None, "yy"]) for _ in range(n)]
    df = pd.DataFrame(data, index=idx)
    if rng.random() < 0.5:
        df = df[rng.sample(list(df.columns), len(df.columns))]
    iv = list(df.index)
    inum = not isinstance(iv[0], str)
    spec[None] = (iv, XS(iv) if inum else ranks(iv), inum)
    splits, cols, srt, unq = {}, [], [], []
    if via_default:
        cols = [dict(v=spec[None][1], kind="random", frac=X(0.8), exact=False)]
    else:
        keys = rng.sample(names, min(ncols, len(names)))
        if rng.random() < 0.3 and (ncols == 1 or len(set(iv)) <= 5):
            keys[rng.randrange(len(keys))] = None
        for key in keys:
            v, vs, numeric = spec[key]
            kind = rng.choice([k for k in KINDS if k != "linear" or numeric])
            frac = frac_()
            splits[key] = (kind, frac)
            cols.append(dict(v=vs, kind=kind, frac=X(frac), exact=ncols > 1 or is_exact(v, frac, numeric, kind)))
            if ncols > 1 and kind == "linear":
                if not is_exact(v, frac, numeric):
                    splits[key] = ("ordered", frac)
                    cols[-1]["kind"] = "ordered"
            if all(v[i] <= v[i + 1] for i in range(n - 1)) and rng.random() < 0.6:
                srt.append(key)
            if len(set(v)) == n and rng.random() < 0.6:
                unq.append(key)
    np.random.seed(rng.randint(0, 10 ** 9))
    kw = {}
    if srt or rng.random() < 0.3:
        kw["assume_sorted"] = srt
    if unq or rng.random() < 0.3:
        kw["assume_unique"] = unq
    before = rows_of(df)
    if via_default:
        st, o = call(ds.split_df, df, **kw)
    else:
        st, o = call(ds.split_df, df, splits, **kw)
    e = dict(status=st, rows=before, cols=cols, how=str(splits))
    if st == "ok":
        tr, te, un = o
        e.update(train=rows_of(tr), test=rows_of(te), unused=rows_of(un),
                 seltrain=[int(x) for x in tr["rid"]], seltest=[int(x) for x in te["rid"]], selunused=[int(x) for x in un["rid"]],
                 shape=all(list(d.columns) == list(df.columns) and (d.dtypes == df.dtypes).all() and d.index.name == df.index.name for d in o))
    R.ev("split", **e)


def bare_event():
    """Rows are identified by the index alone; whole rows may be missing values."""
    n = rng.randint(1, 12)
    ids = rng.sample(range(-20, 60), n)
    if rng.random() < 0.3:
        ids.sort()
    q = rng.choice([0.2, 0.5, 1.0])
    nm = rng.sample(["a", "b", 3], rng.randint(1, 3))
    gone = [rng.random() < q for _ in range(n)]
    val = lambda i: float("nan") if gone[i] or rng.random() < 0.2 else rng.choice([0.0, 1.5, -2.0])
    txt = lambda i: None if gone[i] else rng.choice(["x", "yy"])
    df = pd.DataFrame({k: [(txt if k == "b" else val)(i) for i in range(n)] for k in nm}, index=pd.Index(ids, name=rng.choice([None, "id"])))
    kind, frac = rng.choice(KINDS), frac_()
    np.random.seed(rng.randint(0, 10 ** 9))
    before = rows_of(df)
    st, o = call(ds.split_df, df, {None: (kind, frac)})
    e = dict(status=st, rows=before, cols=[dict(v=XS(ids), kind=kind, frac=X(frac), exact=is_exact(ids, frac, True, kind))], how="bare")
    if st == "ok":
        sel = [[ids.index(i) + 1 for i in d.index] for d in o]
        e.update(train=rows_of(o[0]), test=rows_of(o[1]), unused=rows_of(o[2]), seltrain=sel[0], seltest=sel[1], selunused=sel[2],
                 shape=all(list(d.columns) == list(df.columns) and (d.dtypes == df.dtypes).all() and d.index.name == df.index.name for d in o))
    R.ev("split", **e)


def label(c):
    return [cell(x) for x in c] if isinstance(c, tuple) else [cell(c)]


def lag_event():
    n = rng.choice([0, 1, 2, 3, 4, 6, 9]) if rng.random() < 0.96 else rng.choice([30, 101])
    ncols = rng.randint(1, 4)
    multi = rng.random() < 0.25
    if multi:
        labs = rng.sample([("a", 1), ("a", 2), ("b", 1), ("c", 3), ("b", 2)], ncols)
        columns = pd.MultiIndex.from_tuples(labs, names=rng.choice([["u", "v"], [None, None]]))
    else:
        labs = rng.sample(["a", "b", "lag", 3, "x y", "L0", "L1", ""], ncols)
        columns = pd.Index(labs, name=rng.choice([None, "feat"]))
    cols = [[None if rng.random() < 0.1 else x for x in column(n, few=rng.choice([2, 5, 9]))[0]] for _ in labs]
    df = pd.DataFrame(dict(enumerate(cols)), index=some_index(n) if n else pd.Index([]))
    df.columns = columns
    if rng.random() < 0.1:
        df.index = pd.MultiIndex.from_tuples([(i // 2, i) for i in range(n)], names=["p", "q"]) if n else df.index
    elif rng.random() < 0.12:  # regular and irregular times
        df.index = rng.choice([pd.date_range("2020-02-27", periods=n, freq=rng.choice(["D", "h", "MS"])), pd.timedelta_range("0s", periods=n, freq="s"), pd.period_range("2020-01", periods=n, freq="M")])
    nl, stride = rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([1, 1, 1, 2, 3, 5])
    if rng.random() < 0.05:
        nl, stride = rng.choice([10, 11, 12, 14]), rng.choice([1, 2, 7, 12])
    feats = None
    if rng.random() < 0.6:
        feats = rng.sample(labs, rng.randint(0 if rng.random() < 0.2 else 1, ncols))
    kw = {}
    if stride != 1 or rng.random() < 0.3:
        kw["stride"] = stride
    if feats is not None or rng.random() < 0.3:
        kw["features"] = tuple(feats) if feats is not None and rng.random() < 0.3 else feats
    st, o = call(ds.build_lag_df, df.copy(), nl, **kw)
    e = dict(status=st, nlags=nl, stride=stride, all=feats is None, features=[label(f) for f in feats or []],
             cols=[dict(f=label(labs[j]), v=[cell(x) for x in df.iloc[:, j].tolist()]) for j in range(ncols)])
    if st == "ok":
        nlev = o.columns.nlevels
        e.update(lastlevel=nlev == df.columns.nlevels + 1 and o.columns.names[-1] == "lag" and list(o.columns.names[:-1]) == list(df.columns.names),
                 sameindex=list(o.index) == list(df.index) and list(o.index.names) == list(df.index.names),
                 out=[dict(f=label(tuple(c)[:-1]), lag=str(tuple(c)[-1]), v=[cell(x) for x in o.iloc[:, j].tolist()]) for j, c in enumerate(o.columns)])
    R.ev("lag", **e)


CASES = list(cases(sys.argv[3:]))


def c25():
    for c in CASES:  # the specification's columns, as a frame
        v = [num(x) for x in c["v"]]
        df = pd.DataFrame(dict(rid=range(1, len(v) + 1), a=v), index=some_index(len(v)))
        st, o = call(ds.split_df, df, {"a": (c["kind"], num(c["frac"]))})
        e = dict(status=st, rows=rows_of(df), cols=[dict(c, frac=X(num(c["frac"])), exact=is_exact(v, num(c["frac"]), True, c["kind"]))], how="model")
        if st == "ok":
            tr, te, un = o
            e.update(train=rows_of(tr), test=rows_of(te), unused=rows_of(un), shape=True,
                     seltrain=[int(x) for x in tr["rid"]], seltest=[int(x) for x in te["rid"]], selunused=[int(x) for x in un["rid"]])
        R.ev("split", **e)
    for _ in range(N(400, 3000)):
        split_event(rng.randint(1, 12), 1)
    for _ in range(N(700, 5000)):
        split_event(rng.randint(1, 10), rng.choice([2, 2, 2, 3, 3, 4]))
    for _ in range(N(60, 300)):
        split_event(rng.randint(1, 40), 1, via_default=True)
    for _ in range(N(120, 1000)):
        bare_event()
    for _ in range(N(12, 100)):
        split_event(rng.choice([50, 101, 200]), rng.choice([1, 2, 3]))
    for _ in range(N(4, 20)):
        split_event(rng.choice([101, 200]), 1, via_default=True)


def c26():
    for c in CASES:
        v = [num(x) for x in c["v"]]
        mask_event(v, XS(v), True, c["kind"], num(c["frac"]))
    for _ in range(N(1500, 12000)):
        n = rng.choice([1, 2, 3, 5, 8, 13, 20, 40])
        v, vs, numeric = column(n)
        mask_event(v, vs, numeric, rng.choice([k for k in KINDS if k != "linear" or numeric]), frac_())
    for _ in range(N(40, 300)):
        n = rng.choice([64, 101, 200, 257])
        v, vs, numeric = column(n, kinds=("int", "float", "int", "bool"))
        mask_event(v, vs, numeric, rng.choice([k for k in KINDS if k != "linear" or numeric]), frac_())
    for m in (2, 3, 4, 5):  # every share exactly met, and its neighbours
        for big in (1, 3, 7, 20):
            n = m * big
            for k in range(n + 1):
                for f in (k / n, float(np.nextafter(k / n, 2)), float(np.nextafter(k / n, -1))):
                    if 0 <= f <= 1 and (big < 20 or rng.random() < 0.3):
                        v = [float(i) for i in range(n)]
                        mask_event(v, XS(v), True, rng.choice(KINDS), f)
    for _ in range(N(200, 2000)):  # the building blocks of random splits
        n, f = rng.randint(1, 25), frac_()
        c = dict(v=[X(i) for i in range(n)], kind="random", frac=X(f), exact=False)
        if rng.random() < 0.5:
            st, m = call(ds.rand_mask, n, f)
            mask, ok = ([bool(x) for x in m], m.dtype == bool) if st == "ok" else ([], False)
        else:
            items = rng.sample(range(100), n)
            st, L = call(ds.rand_subset, rng.choice([items, np.array(items)]), f)
            mask, ok = ([x in set(L.tolist()) for x in items], set(L.tolist()) <= set(items) and len(set(L.tolist())) == len(L)) if st == "ok" else ([], False)
        R.ev("mask", status=st, c=c, mask=mask, aligned=bool(ok), hinted=mask, seed=0)
    for m, f in ((3, 0.5), (4, 0.5), (4, 0.25), (5, 0.5), (2, 0.5), (4, 0.75)):
        for uniq in (False, True):
            freq_event(m, f, N(1000, 4000), uniq)
    for _ in range(N(150, 1500)):
        split_event(rng.randint(1, 14), 1)


def c27():
    for _ in range(N(1500, 12000)):
        lag_event()


dict(C25=c25, C26=c26, C27=c27)[prop]()
R.close()
