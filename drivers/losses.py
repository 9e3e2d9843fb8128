"""Records loss functions, loss tables and prediction helpers (C18 - C21, C29)."""
from common import *
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
INF = float("inf")
CS = list(cases(sys.argv[3:]))
rng.shuffle(CS)
CF = dict(log=btc.log_loss, brier=btc.brier_loss, sphere=btc.spherical_loss)


def dist(k):
    """A distribution over k labels, dyadic, extreme, uniform or peaked."""
    t = rng.random()
    if t < 0.15:
        p = [1.0 / k] * k
    elif t < 0.3:
        p = [0.0] * k
        p[rng.randrange(k)] = 1.0
    elif t < 0.45:
        p = [rng.choice([0, 1, 2, 4]) for _ in range(k)]
        s = sum(p)
        p = [v / s for v in p] if s else [1.0 / k] * k
    elif t < 0.5 and k > 1:  # two labels all but tied
        d = rng.choice([1e-3, 1e-6, 1e-8, 1e-9, 1e-10])
        p = [0.0] * k
        i, j = rng.sample(range(k), 2)
        p[i], p[j] = 0.5 + d, 0.5 - d
    elif t < 0.6:
        p = [10.0 ** -rng.randint(3, 30) for _ in range(k)]
        p[rng.randrange(k)] = 1.0
    else:
        p = [rng.expovariate(1) + 1e-6 for _ in range(k)]
        s = sum(p)
        p = [v / s for v in p]
    return p


def logs(ps):
    with np.errstate(divide="ignore"):
        lp = np.log(np.array(ps, dtype=float))
    return lp + 0.0  # no negative zeros


def lab(n, k):
    if rng.random() < (0.5 if k == 2 else 0.1):  # labels 0 and 1 may come as booleans
        return np.array([rng.randrange(min(k, 2)) for _ in range(n)], dtype=bool)
    y = [rng.randrange(k) for _ in range(n)]
    return np.array(y, dtype=rng.choice([int, int, np.int32] + ([np.int8] if k <= 128 else [])))


def lay(a):
    """Same array, another memory layout."""
    t = rng.random()
    return np.asfortranarray(a) if t < 0.15 else np.repeat(a, 2, axis=0)[::2] if t < 0.3 else a


def shape(big=0.05):
    """(labels, points)"""
    t = rng.random()
    if t < big:
        return rng.choice([13, 16, 17, 20, 26, 33, 40]), rng.choice([1, 2])
    if t < 2 * big:
        return rng.choice([1, 2, 3]), rng.choice([20, 33, 64, 101])
    return rng.choice([1, 2, 2, 3, 4, 7, 12]), rng.choice([1, 1, 2, 3, 6])


def klass(metric, y, lp, rescale):
    f = CF[metric]
    if metric == "log":
        st, o = call(f, y, lp)
    elif rescale and rng.random() < 0.5:
        st, o = call(f, y, lp)
    else:
        st, o = call(f, y, lp, rescale=rescale)
    R.ev("class", metric=metric, y=[int(v) for v in y], lp=XM(lp), rescale=rescale, status=st, out=XS(o) if st == "ok" else [])


def c18():
    by = {}
    for c in CS:
        by.setdefault(len(c["p"]), []).append(c)
    for k, cs in sorted(by.items()):
        for i in range(0, len(cs), 4):
            ch = cs[i:i + 4]
            lp = logs([[num(v) for v in c["p"]] for c in ch])
            y = np.array([c["y"] for c in ch])
            for m in CF:
                for r in (True, False):
                    klass(m, y, lp, r)
    for _ in range(N(500, 4000)):
        k, n = shape()
        klass(rng.choice(list(CF)), lab(n, k), lay(logs([dist(k) for _ in range(n)])), rng.random() < 0.5)
    for k in (16, 17, 25, 32, 33, 50, 64, 65, 101, 129, 200, 257, 500, 800, 1000, 1500):  # many labels, uniform and perfect among them
        for m in CF:
            ps = [[1.0 / k] * k, [1.0] + [0.0] * (k - 1), dist(k), [0.5, 0.25] + [0.25 / (k - 2)] * (k - 2)]
            klass(m, np.array([rng.randrange(k), 0, rng.randrange(k), rng.randrange(k)]), logs(ps), rng.random() < 0.5)
    for _ in range(N(60, 500)):  # log probabilities far below the smallest float probability
        k, n = rng.choice([2, 3, 5]), rng.choice([1, 3])
        lp = logs([dist(k) for _ in range(n)])
        for i in range(n):
            j = rng.randrange(k)
            lp[i] = [rng.choice([-30.0, -100.0, -400.0, -745.0, -800.0, -1e4, -1e8, -INF]) for _ in range(k)]
            lp[i, j] = 0.0
        klass(rng.choice(list(CF)), lab(n, k), lp, rng.random() < 0.5)


def hard(y, lp, mat):
    kw = {} if mat is None else dict(loss_mat=mat)
    st, o = call(btc.hard_loss, y, lp, **kw) if mat is not None or rng.random() < 0.5 else call(btc.hard_loss, y, lp, None)
    act = []
    if st == "ok" and mat is not None:
        st, a = call(btc.hard_loss_decision, lp, mat)
        act = [int(v) for v in a] if st == "ok" else []
    R.ev("hard", y=[int(v) for v in y], lp=XM(lp), hasmat=mat is not None, mat=XM(mat) if mat is not None else [], status=st,
         decided=mat is not None, action=act, out=XS(o) if st == "ok" else [])


def c19():
    for c in CS[:N(300, 2000)]:
        lp = logs([[num(v) for v in c["p"]]])
        k = len(c["p"])
        mat = None if rng.random() < 0.4 else np.array([[rng.choice([0.0, 1.0, 2.0, 5.0, -1.0]) for _ in range(a)] for a in [rng.randint(1, 4)] for _ in range(k)])
        hard(np.array([c["y"]]), lp, mat)
    for _ in range(N(500, 4000)):
        k, n = shape()
        a = rng.choice([1, 2, k, k, k + 1, 5, 5, 12])
        t = rng.random()
        if t < 0.25:
            mat = None
        elif t < 0.5:
            mat = np.array([[rng.uniform(-3, 10) for _ in range(a)] for _ in range(k)])
        elif t < 0.7:
            mat = np.array([[rng.choice([0.0, 1.0, 10.0, 100.0, 1e6]) for _ in range(a)] for _ in range(k)])
        elif t < 0.85:  # integer matrix with an abstain action
            mat = np.concatenate((1 - np.eye(k, dtype=int), np.zeros((k, 1), dtype=int)), axis=1) * 10
            mat[:, -1] = rng.choice([1, 3, 5])
        elif t < 0.95:  # no loss for the right label, mistakes of very different cost
            f = rng.choice([lambda i, j: rng.choice([0.5, 1.0, 10.0, 100.0]), lambda i, j: abs(i - j), lambda i, j: (1.0, 20.0)[i > j], lambda i, j: rng.uniform(0, 5)])
            mat = np.array([[f(i, j) if i != j else 0.0 for j in range(k)] for i in range(k)])
            mat = np.concatenate((mat, np.full((k, 1), 0.4)), axis=1) if rng.random() < 0.2 else mat
        else:
            mat = np.array([[float(i == j) * rng.choice([1, 2]) for j in range(a)] for i in range(k)])
        if mat is not None and rng.random() < 0.1:
            mat = mat * rng.choice([1e-9, 1e-4, 1e8])
        elif mat is not None and rng.random() < 0.1:
            mat = mat - rng.choice([100, 1000])
        hard(lab(n, k), lay(logs([dist(k) for _ in range(n)])), mat if mat is None else lay(mat))
    for k in (60, 129, 200, 257):  # many labels, many actions
        hard(np.array([k - 1, rng.randrange(k)]), logs([dist(k), dist(k)]), None)
        a = rng.choice([3, 130])
        hard(np.array([k - 1, rng.randrange(k)]), logs([dist(k), dist(k)]), np.array([[rng.uniform(-3, 10) for _ in range(a)] for _ in range(k)]))


def regr(metric, y, mu, sd):
    f = dict(square=btr.square_loss, abs=btr.abs_loss, log=btr.log_loss)[metric]
    st, o = call(f, np.array(y), np.array(mu), np.array(sd))
    R.ev("regr", metric=metric, y=XS(y), mu=XS(mu), sd=XS(sd), status=st, out=XS(o) if st == "ok" else [])


def val():
    t = rng.random()
    if t < 0.3:
        return float(rng.randint(-5, 5))
    if t < 0.7:
        return rng.gauss(0, 1) * 10 ** rng.randint(-4, 6)
    return rng.choice([0.0, 0.5, 1e-3, -2.25, 100.0]) + 0.0


def c20():
    for _ in range(N(900, 6000)):
        n = rng.choice([1, 1, 2, 3, 5, 9]) if _ % 40 else rng.choice([50, 101, 200])
        y, mu = [val() for _ in range(n)], [val() for _ in range(n)]
        if rng.random() < 0.2:
            mu = list(y)
        if rng.random() < 0.2:
            mu = [v + rng.choice([-1, 1]) * 10.0 ** rng.randint(-8, 0) for v in y]
        sd = [rng.choice([1.0, 0.5, 2.0, rng.expovariate(1) + 1e-9, 10.0 ** rng.randint(-5, 5), 10.0 ** rng.randint(-12, 12)]) for _ in range(n)]
        if rng.random() < 0.1:  # extreme scales
            s = 10.0 ** rng.choice([-100, -30, -12, 12, 30, 100])
            y, mu, sd = [v * s for v in y], [v * s for v in mu], [v * s for v in sd]
        t = rng.random()
        if t < 0.05:
            rng.choice([y, mu, sd])[rng.randrange(n)] = rng.choice([float("nan"), INF, -INF])
        elif t < 0.1:
            sd[rng.randrange(n)] = rng.choice([0.0, -1.0, -1e-300])
        elif t < 0.14:
            rng.choice([y, mu, sd]).append(1.0)
        elif t < 0.16:
            y, mu, sd = [], [], []
        elif t < 0.3:
            y = np.array([rng.randint(-4, 4) for _ in range(n)])
        regr(rng.choice(["square", "abs", "log"]), y, mu, sd)
    for _ in range(N(60, 500)):  # deviations and differences near the ends of the float range
        n = rng.choice([1, 2, 3])
        sd = [10.0 ** rng.choice([-300, -200, -165, -155, 155, 165, 200, 290]) for _ in range(n)]
        z = [rng.gauss(0, 1) * s for s in sd]
        if rng.random() < 0.4:
            y, mu = np.zeros(n, dtype=rng.choice([int, int, np.int32, float])), z
        else:
            y, mu = z, rng.choice([[0.0] * n, [-v for v in z], list(z)])
        regr(rng.choice(["abs", "log", "log"]), y, mu, sd)


METHODS = ["svm", "rf", "GP", "noise", "m10", "m2", "B", "a"]
NAMES = ["NLL", "Brier", "zz", "A", "m1", "0-1"]


def index(n):
    return rng.choice([list(range(n)), rng.sample(range(n), n), rng.sample(range(n), n), ["r%d" % i for i in range(n)], list(range(n, 0, -1)), [7] * n, [float(i) for i in range(n)]])


def ctable():
    k, n = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 5])
    methods = rng.sample(METHODS, rng.randint(1, 4))
    t = rng.random()
    if t < 0.04:
        k, n, methods = rng.choice([11, 12, 15, 130, 260]), 2, methods[:2]
    elif t < 0.08:
        k, n, methods = 2, rng.choice([40, 101]), methods[:2]
    elif t < 0.12:
        methods = rng.sample(METHODS + ["x%d" % i for i in range(8)], 12)
    norm = rng.random() < 0.3
    P, cols = {}, []
    shift = [rng.choice([0.0, 1.0, -3.5, 20.0, rng.gauss(0, 5)]) for _ in range(n)]
    for m in methods:
        lp = logs([dist(k) for _ in range(n)])
        if not norm and rng.random() < 0.6:
            lp = lp + np.array([[rng.choice([0.0, 1.0, -3.5, rng.gauss(0, 50)])] for _ in range(n)])
        P[m] = lp + 0.0
        cols += [(m, j) for j in range(k)]
    may = False
    order = list(cols)
    t = rng.random()
    if t < 0.4:
        order.sort(key=lambda c: (c[1], methods.index(c[0])))  # interleaved by label
    elif t < 0.6:
        rng.shuffle(order)
        may = any([c[1] for c in order if c[0] == m] != list(range(k)) for m in methods)
    if rng.random() < 0.04:
        P[rng.choice(methods)][rng.randrange(n), rng.randrange(k)] = float("nan")
    df = pd.DataFrame({c: P[c[0]][:, c[1]] for c in order})
    df.columns = pd.MultiIndex.from_tuples(order, names=["method", "label"])
    if rng.random() < 0.2 and len(methods) > 1:
        d = methods.pop()
        df = df[[c for c in order if c[0] != d]]
    idx = index(n)
    df.index = idx
    y = lab(n, k)
    fs = dict(log=btc.log_loss, brier=btc.brier_loss, sphere=btc.spherical_loss, hard=btc.hard_loss,
              first=lambda y, lp: lp[:, 0].copy(), label=lambda y, lp: y.astype(float))
    names = rng.sample(NAMES, rng.randint(1, 4))
    which = {nm: rng.choice(list(fs)) for nm in names}
    kw = dict(assume_normalized=norm) if norm or rng.random() < 0.5 else {}
    md = {nm: fs[which[nm]] for nm in names}
    st, o = call(btc.loss_table, df, y, md, **kw)
    lb = False
    if st == "ok":
        lb = list(o.index) == idx and sorted(o.columns) == sorted((a, b) for a in names for b in methods) and list(o.columns.names) == ["metric", "method"]
    cells = [dict(metric=which[a], method=m, out=XS(o[(a, m)].values)) for a in names for m in methods] if lb else []
    R.ev("ctable", y=[int(v) for v in y], pred=[dict(method=m, rows=XM(P[m])) for m in methods], normalized=norm, status=st, labels=bool(lb),
         may_raise=bool(may), cells=cells)
    if st == "ok" and lb and not norm:
        df2 = df + np.array([[s] for s in shift])
        st2, o2 = call(btc.loss_table, df2, y, md)
        use = [nm for nm in names if which[nm] != "hard"]  # ties may be broken by rounding
        R.ev("shift", status=st2, a=XS(o[[c for c in o.columns if c[0] in use]].values),
             b=XS(o2[[c for c in o.columns if c[0] in use]].values) if st2 == "ok" else [])


def rtable():
    n = rng.choice([1, 2, 3, 5]) if rng.random() < 0.95 else rng.choice([50, 101])
    methods = rng.sample(METHODS, rng.randint(1, 4)) if rng.random() < 0.95 else rng.sample(METHODS + ["x%d" % i for i in range(8)], 12)
    moments = rng.choice([["mu", "std"], ["std", "mu"], ["mu", "std", "skew"], ["alpha", "std", "mu"]])
    P = {m: np.array([[val(), rng.expovariate(1) + 0.01] for _ in range(n)]) for m in methods}
    nan = rng.random() < 0.05
    if nan:
        P[rng.choice(methods)][rng.randrange(n), rng.randrange(2)] = float("nan")
    order = [(m, j) for m in methods for j in moments]
    if rng.random() < 0.6:
        rng.shuffle(order)
    df = pd.DataFrame({c: P[c[0]][:, 0] if c[1] == "mu" else P[c[0]][:, 1] if c[1] == "std" else [0.0] * n for c in order})
    df.columns = pd.MultiIndex.from_tuples(order, names=["method", "moment"])
    if rng.random() < 0.2 and len(methods) > 1:
        d = methods.pop()
        df = df[[c for c in order if c[0] != d]]
        if nan:
            return
    idx = index(n)
    df.index = idx
    y = np.array([val() for _ in range(n)])
    fs = dict(square=btr.square_loss, abs=btr.abs_loss, log=btr.log_loss, mu=lambda y, m, s: m.copy(), sd=lambda y, m, s: s.copy(), y=lambda y, m, s: y.copy())
    names = rng.sample(NAMES, rng.randint(1, 4))
    which = {nm: rng.choice(list(fs)) for nm in names}
    if nan:
        which[names[0]] = "log"
    st, o = call(btr.loss_table, df, y, {nm: fs[which[nm]] for nm in names})
    lb = False
    if st == "ok":
        lb = list(o.index) == idx and sorted(o.columns) == sorted((a, b) for a in names for b in methods) and list(o.columns.names) == ["metric", "method"]
    cells = [dict(metric=which[a], method=m, out=XS(o[(a, m)].values)) for a in names for m in methods] if lb else []
    R.ev("rtable", y=XS(y), pred=[dict(method=m, rows=XM(P[m])) for m in methods], status=st, labels=bool(lb), cells=cells)


def c21():
    for _ in range(N(250, 2000)):
        ctable()
    for _ in range(N(250, 2000)):
        rtable()


def c29():
    for _ in range(N(500, 3000)):
        k, n = rng.choice([1, 2, 3, 5, 9]), rng.choice([1, 1, 2, 4])
        if _ % 25 == 0:
            k, n = rng.choice([(17, 2), (40, 1), (101, 1), (3, 64), (2, 101), (130, 1), (60, 2)])
        t = rng.random()
        if t < 0.4:
            a = logs([dist(k) for _ in range(n)])
        elif t < 0.7:
            a = np.array([[rng.gauss(0, 10) for _ in range(k)] for _ in range(n)])
        elif t < 0.85:
            a = np.array([[rng.choice([-800.0, -1000.0, 0.0, 700.0, 800.0, -745.5, 1e5]) for _ in range(k)] for _ in range(n)])
        else:
            a = np.array([[rng.choice([-INF, 0.0, 1.0, -2.0]) for _ in range(k)] for _ in range(n)])
            a[:, rng.randrange(k)] = 0.5
        st, o = call(util.normalize, a)
        R.ev("norm", rows=XM(a), status=st, out=XM(o) if st == "ok" else [])
    for _ in range(N(200, 1500)):
        k, n = rng.choice([1, 2, 3, 6, 10, 40, 120, 128, 130, 257, 300]), rng.choice([0, 1, 2, 5, 9, 40])
        y = np.array([rng.choice([k - 1, rng.randrange(k)]) for _ in range(n)], dtype=rng.choice([np.int64, np.int32, np.int8] if k <= 128 else [np.int64, np.int32, np.int16]))
        st, o = call(util.one_hot, y, k)
        R.ev("onehot", y=[int(v) for v in y], n=k, status=st, out=[[bool(v) for v in r] for r in np.asarray(o).tolist()] if st == "ok" else [])
    for _ in range(N(500, 3000)):
        n = rng.choice([1, 2, 3, 6, 12, 30]) if _ % 50 else rng.choice([60, 101])
        t = rng.random()
        if t < 0.2:
            x = [rng.choice([0.0, 3.0, -1.5])] * n
        elif t < 0.5:
            x = [float(rng.randint(0, 5)) * rng.choice([1.0, 0.25, 1e-3]) for _ in range(n)]
        elif t < 0.7:
            x = [float(rng.randint(0, 5)) * 100 for _ in range(n)]
        elif t < 0.8:
            x = [rng.choice([1.0, float(np.nextafter(1.0, 2)), 1.0 + 1e-12, 2.0]) for _ in range(n)]
        else:
            x = [rng.gauss(0, 1) * 10 ** rng.randint(-3, 3) for _ in range(n)]
        kw = {}
        if rng.random() < 0.4:
            kw["default_epsilon"] = rng.choice([1e-3, 0.5, 2.0])
        if rng.random() < 0.4:
            kw["max_epsilon"] = rng.choice([1e-3, 0.5, 10.0, INF])
        st, o = call(util.epsilon_noise, np.array(x), **kw)
        R.ev("noise", x=XS(x), dflt=X(kw.get("default_epsilon", 1e-10)), mx=X(kw.get("max_epsilon", 1.0)), status=st, out=XS(o) if st == "ok" else [])


dict(C18=c18, C19=c19, C20=c20, C21=c21, C29=c29)[prop]()
R.close()
