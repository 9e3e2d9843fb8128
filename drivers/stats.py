"""Records calls of mlpaper.mlpaper and mlpaper.boot_util (C08 - C12)."""
from common import *
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
CASES = [[num(v) for v in c["x"]] for c in cases(sys.argv[3:])]
rng.shuffle(CASES)
INF = float("inf")


class Draws:
    """Observes multinomial draws, so that replicates can be recomputed."""
    def __enter__(self):
        self.rows, self.orig = [], np.random.multinomial
        np.random.multinomial = self
        return self

    def __exit__(self, *a):
        np.random.multinomial = self.orig

    def __call__(self, *a, **k):
        r = self.orig(*a, **k)
        if np.ndim(r) == 2:
            self.rows.extend(np.asarray(r).tolist())
        return r


def xnum(st, o):
    try:
        return X(o) if st == "ok" and np.ndim(o) == 0 else "nan"
    except Exception:
        return "nan"


def sample(n=None, dyadic=False, allow_inf=True):
    n = n if n is not None else rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 25, 31, 40])
    r = rng.random()
    if r < 0.08:
        x = [rng.choice([0.0, 1.0, -2.5, 0.1, 3e-5])] * n
    elif r < 0.3:
        x = [float(rng.choice([0, 1])) for _ in range(n)]
    elif r < 0.5 or dyadic:
        x = [rng.randint(-8, 8) / rng.choice([1, 2, 4]) for _ in range(n)]
    elif r < 0.75:
        m, s = rng.choice([0, 0.5, 1, -2, 20]), 10.0 ** rng.randint(-3, 3)
        x = [s * (m + rng.gauss(0, 1)) for _ in range(n)]
    else:
        s = 10.0 ** rng.randint(-3, 3)
        x = [s * rng.expovariate(1) for _ in range(n)]
    if allow_inf and rng.random() < 0.05:
        x[rng.randrange(n)] = rng.choice([INF, -INF])
    if allow_inf and rng.random() < 0.04:
        x = rng.choice([[INF], [-INF], [INF, -INF], [INF] * n, [-INF] * n, [INF] * (n - 1) + [0.0]])
    return x


def arr(x):
    """The same sample in another admissible array: integer or boolean dtype, reversed or strided memory."""
    r = rng.random()
    a = np.array(x, dtype=float)
    if r < 0.2 and all(math.isfinite(v) and v == int(v) for v in x):
        return a.astype(rng.choice([np.int64, np.int32])) if r < 0.15 or set(x) - {0.0, 1.0} else a.astype(int)
    if r < 0.3:
        return np.array(x[::-1], dtype=float)[::-1]
    if r < 0.4:
        return np.array([x, x], dtype=float).T.copy()[:, 1]
    return a


def big(n, dyadic=False):
    """Long samples, of sizes at which an implementation may change its method."""
    r = rng.random()
    if dyadic or r < 0.4:
        return [rng.randint(-8, 16) / rng.choice([1, 2, 4]) for _ in range(n)]
    if r < 0.6:
        return [float(rng.random() < 0.3) for _ in range(n)]
    m = rng.choice([0, 0.02, 0.1, 1])
    s = 10.0 ** rng.choice([-9, -5, 0, 3, 8])
    return [s * (m + rng.gauss(0, 1)) for _ in range(n)]


def conf():
    return rng.choice([0.95, 0.95, 0.9, 0.5, 0.99, 0.999, 0.6827, 0.05, 0.1, 1 - 2.0 ** -10, 0.9999, 0.001, rng.uniform(0.01, 0.99)])


def limits(x):
    f = [v for v in x if math.isfinite(v)] or [0.0]
    lo, hi = min(f), max(f)
    r = rng.random()
    if r < 0.15:
        lo, hi = -INF, INF
    elif r < 0.3:
        lo, hi = lo - rng.choice([0, 1, 0.5]), INF
    elif r < 0.4:
        lo, hi = -INF, hi + rng.choice([0, 1, 0.5])
    else:
        lo, hi = lo - rng.choice([0, 0, 1, 0.25, 10]), hi + rng.choice([0, 0, 1, 0.25, 10])
    if any(v == INF for v in x):
        hi = INF
    if any(v == -INF for v in x):
        lo = -INF
    return float(lo), float(hi)


def kwc(c):
    return {} if c == 0.95 and rng.random() < 0.5 else dict(confidence=c)


def mean_ev(method, x, c, lo, hi, mn, kind, nb=1000):
    kw = dict(method=method) if method != "t" or rng.random() < 0.5 else {}
    if lo != -INF or rng.random() < 0.5:
        kw["lower"] = lo
    if hi != INF or rng.random() < 0.5:
        kw["upper"] = hi
    if kind != "test":
        kw.update(kwc(c))
        if mn or rng.random() < 0.5:
            kw["min_EB"] = mn
    f = dict(eb=bt.get_mean_and_EB, ebt=bt.get_mean_EB_test, test=bt.get_test)[kind]
    with Draws() as d:
        st, o = call(f, arr(x), **kw)
    mu = eb = p = "nan"
    if st == "ok":
        if kind == "test":
            p = xnum(st, o)
        else:
            o = tuple(o)
            mu, eb = X(o[0]), X(o[1])
            p = X(o[2]) if kind == "ebt" else "nan"
    R.ev("mean", method=method, x=XS(x), conf=X(c), lo=X(lo), hi=X(hi), mn=X(mn), nb=nb, w=d.rows if method == "boot" else [], status=st,
         mu=mu, eb=eb, p=p, want_mu=kind != "test", want_eb=kind != "test", want_p=kind != "eb")


def means(method, count, **kw):
    for _ in range(count):
        x = sample(**kw)
        lo, hi = limits(x)
        rg = hi - lo
        f = [v for v in x if math.isfinite(v)]
        sums_to_nan = any(v == INF for v in x) and any(v == -INF for v in x)
        if sums_to_nan:
            continue
        mn = 0.0
        if rng.random() < 0.4 and rg > 0:
            mn = rng.choice([1e-6, 0.01, 0.1]) if rg == INF else rg * rng.choice([0.001, 0.1, 0.5])
            mn = min(mn, 0.5 * rg)
        mean_ev(method, x, conf(), lo, hi, mn, rng.choice(["eb", "ebt", "ebt", "test"]))


def do_c08():
    pool = CASES[:N(150, 1000)] + [sample() for _ in range(N(400, 5000))]
    for x in pool:
        c = conf()
        a = arr(x) if rng.random() < 0.9 else list(x)
        r = rng.random()
        if r < 0.2:
            st, o = call(bt.t_EB, a, **kwc(c)) if c == 0.95 else call(bt.t_EB, a, confidence=c)
            R.ev("tEB", x=XS(x), conf=X(c), status=st, out=xnum(st, o))
        elif r < 0.4:
            st, o = call(bt.t_test, a)
            R.ev("tP", x=XS(x), status=st, out=xnum(st, o))
        else:
            st, o = call(bt.t_EB, a, confidence=c)
            st2, o2 = call(bt.t_test, a)
            R.ev("tBoth", x=XS(x), conf=X(c), status="ok" if st == st2 == "ok" else "exc", eb=xnum(st, o), p=xnum(st2, o2))
    ns = [50, 64, 99, 100, 101, 127, 128, 200, 201, 256, 300, 400, 500, 501, 700, 1000, 1001, 1500] + [rng.randint(40, 2000) for _ in range(N(8, 60))]
    for n in ns:
        x, c = big(n), conf()
        st, o = call(bt.t_EB, np.array(x), confidence=c)
        st2, o2 = call(bt.t_test, np.array(x))
        R.ev("tBoth", x=XS(x), conf=X(c), status="ok" if st == st2 == "ok" else "exc", eb=xnum(st, o), p=xnum(st2, o2))
        lo, hi = limits(x)
        mean_ev("t", x, c, lo, hi, 0.0, "ebt")
    for _ in range(N(40, 400)):  # extreme but well-conditioned scales
        s, n = 10.0 ** rng.choice([-60, -30, -20, -15, -12, -9, 9, 12, 15, 30, 60]), rng.randint(2, 12)
        x = [s * (rng.choice([0, 1, 3]) + rng.gauss(0, 1)) for _ in range(n)]
        c = conf()
        st, o = call(bt.t_EB, np.array(x), confidence=c)
        st2, o2 = call(bt.t_test, np.array(x))
        R.ev("tBoth", x=XS(x), conf=X(c), status="ok" if st == st2 == "ok" else "exc", eb=xnum(st, o), p=xnum(st2, o2))
    for _ in range(N(40, 400)):  # far outliers, far means: very small and very large p-values
        n = rng.randint(2, 40)
        x = [rng.choice([1, 10, 1000]) + rng.gauss(0, 1) for _ in range(n)]
        if rng.random() < 0.5:
            x[0] = rng.choice([-1e3, 1e5, 1e7])
        c = conf()
        st, o = call(bt.t_EB, np.array(x), confidence=c)
        st2, o2 = call(bt.t_test, np.array(x))
        R.ev("tBoth", x=XS(x), conf=X(c), status="ok" if st == st2 == "ok" else "exc", eb=xnum(st, o), p=xnum(st2, o2))
    means("t", N(150, 2000))


def do_c09():
    pool = CASES[:N(200, 1000)] + [sample() for _ in range(N(500, 6000))]
    for x in pool:
        c, (lo, hi) = conf(), limits(x)
        a = arr(x)
        if rng.random() < 0.5:
            st, o = call(bt.bernstein_EB, a, lo, hi, **kwc(c))
            R.ev("bEB", x=XS(x), lo=X(lo), hi=X(hi), conf=X(c), status=st, out=xnum(st, o))
        else:
            st, o = call(bt.bernstein_test, a, lo, hi)
            R.ev("bP", x=XS(x), lo=X(lo), hi=X(hi), status=st, out=xnum(st, o))
    for n in [50, 99, 100, 101, 200, 201, 256, 500, 501, 1000, 1001, 2000] + [rng.randint(40, 3000) for _ in range(N(8, 60))]:
        x, c = big(n), conf()
        lo, hi = limits(x)
        st, o = call(bt.bernstein_EB, np.array(x), lo, hi, **kwc(c))
        R.ev("bEB", x=XS(x), lo=X(lo), hi=X(hi), conf=X(c), status=st, out=xnum(st, o))
        st, o = call(bt.bernstein_test, np.array(x), lo, hi)
        R.ev("bP", x=XS(x), lo=X(lo), hi=X(hi), status=st, out=xnum(st, o))
        mean_ev("bernstein", x, c, lo, hi, 0.0, "ebt")
    means("bernstein", N(250, 3000))


def do_c10():
    pool = CASES[:N(60, 600)] + [sample(n=rng.choice([1, 2, 3, 4, 5, 6, 9]), dyadic=True) for _ in range(N(140, 1500))]
    pool += [[INF] * 3, [-INF] * 4, [INF, INF, 1.0], [-INF, -1.0], [INF, -INF, 0.0]]
    pool += [big(n, dyadic=True) for n in [20, 33, 50, 100, 101, 200, 201, 256, 400, 500, 501, 600, 1000, 1001, 1500]]
    for x in pool:
        c = conf()
        nb = rng.choice([1, 2, 7, 20, 21, 40, 41, 60])
        if len(x) <= 4 and rng.random() < 0.35:
            nb = rng.choice([300, 600, 1000])
        a = arr(x)
        kw = {} if nb == 1000 and rng.random() < 0.5 else dict(n_boot=nb)
        if rng.random() < 0.5:
            kw.update(kwc(c))
            with Draws() as d:
                st, o = call(bt.boot_EB, a, **kw)
            R.ev("bootEB", x=XS(x), conf=X(c), nb=nb, w=d.rows, status=st, out=xnum(st, o))
        else:
            with Draws() as d:
                st, o = call(bt.boot_test, a, **kw)
            R.ev("bootP", x=XS(x), conf=X(c), nb=nb, w=d.rows, status=st, out=xnum(st, o))
    means("boot", N(40, 300), n=4 if THOROUGH else 3, dyadic=True)
    means("boot", N(20, 300), n=2, dyadic=True)
    for i in range(N(50, 400)):  # an error bar that only just excludes zero: both results must come from the same replicates
        sc = 10.0 ** rng.randint(-3, 3) * rng.choice([1, -1])
        x, c = rng.choice([([-1, 3, 3.25], 1 - 2 / 27.), ([-1, 4, 4.25], 1 - 2 / 27.), ([-2, 1.5], 0.5), ([-1, 3.5, 3.75, 4], 1 - 2 / 256.)])
        x = [float(sc * v) for v in x]
        rng.shuffle(x)
        mean_ev("boot", x, c, -INF, INF, 0.0, "ebt")
    for n, nb in [(600, 1000), (2000, 1000), (300, 5000), (20000, 100), (60, 20000), (2, 100000), (1001, 2001)]:
        digest(n, nb)
    # the weights themselves
    for n, nb in [(1, 50), (2, 1500), (3, 2500)] + ([(4, 5000)] if THOROUGH else []):
        weights(n, nb, 0, freq=True, moments=False)
    for n in (5, 12, 30):
        weights(n, N(400, 2000), 0, freq=False, moments=True)
    for n in (100, 257, 600):
        weights(n, 100, 0, freq=False, moments=True)
    for n in [50, 101, 200, 201, 256, 500, 501, 1000, 1001, 2000, 5000]:
        weights(n, 3, rng.choice([0, 1e-10, 1e-3]), freq=False, moments=False)
    for nb in [101, 200, 500, 1000, 1001, 2001]:
        weights(rng.randint(1, 4), nb, rng.choice([0, 1e-10, 1]), freq=False, moments=False)
    for _ in range(N(30, 300)):
        n, nb, eps = rng.randint(1, 12), rng.randint(1, 9), rng.choice([0, 0, 1e-10, 0.5, 1e-3, 1, 0.0, 1.5, 2, 2.5, 3, 1e-300])
        weights(n, nb, eps, freq=False, moments=False)
        np.random.seed(rng.randint(0, 10 ** 6))
        s = np.random.get_state()
        st, base = call(bu.boot_weights, n, nb)
        np.random.set_state(s)
        st2, w = call(bu.boot_weights, n, nb, eps)
        R.ev("floor", eps=X(eps), status="ok" if st == st2 == "ok" else "exc", base=XM(base) if st == "ok" else [], rows=XM(w) if st2 == "ok" else [])


def weights(n, nb, eps, freq, moments):
    st, w = call(bu.boot_weights, n, nb) if eps == 0 and rng.random() < 0.5 else call(bu.boot_weights, n, nb, epsilon=eps)
    R.ev("weights", n=n, nb=nb, eps=X(eps), status=st, rows=XM(w) if st == "ok" else [], freq=freq, moments=moments)


def digest(n, nb):
    """A large weight matrix, by its row sums, range, moments and number of distinct rows (entries are small integers: exact)."""
    st, w = call(bu.boot_weights, n, nb)
    ok = st == "ok" and np.shape(w) == (nb, n)
    W = np.asarray(w, dtype=float) if ok else np.zeros((0, 0))
    z = lambda f: float(f()) if ok else 0.0
    R.ev("digest", n=n, nb=nb, status=st, shape=bool(ok), whole=bool(ok and np.all(W == np.floor(W)) and np.all(W >= 0)),
         sums=sorted(set(XS(W.sum(axis=1)))) if ok else [], distinct=len({r.tobytes() for r in W}),
         sq=X(z(lambda: np.sum(W * W))), lag=X(z(lambda: np.sum(W[1:] * W[:-1]))), far=X(z(lambda: np.sum(W[nb // 2:2 * (nb // 2)] * W[:nb // 2]))),
         cmin=X(z(lambda: W.sum(axis=0).min())), cmax=X(z(lambda: W.sum(axis=0).max())))


def do_c11():
    vals = [-INF, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0, INF]
    lims = [(-INF, INF), (0.0, 1.0), (-1.0, 3.0), (0.0, INF), (-INF, 1.0), (0.5, 0.5), (-0.25, 0.5)]
    ebs = [0.0, 0.125, 0.3, 1.0, 2.0, 1e9, INF, float("nan")]
    mns = [0.0, 0.125, 0.25, 0.5, 2.0]
    grid = [(mu, eb, l, mn) for mu in vals + [float("nan")] for eb in ebs for l in lims for mn in mns]
    rng.shuffle(grid)
    for mu, eb, (lo, hi), mn in grid[:N(1500, len(grid))]:
        clip(mu, eb, lo, hi, mn)
    for _ in range(N(700, 8000)):
        lo = rng.choice([-INF, 0.0, -1.0, rng.gauss(0, 1)])
        hi = rng.choice([INF, 1.0, 3.0, (lo if math.isfinite(lo) else 0.0) + rng.expovariate(1)])
        if hi < lo:
            continue
        mu = rng.choice([lo, hi, float("nan"), rng.uniform(max(lo, -5), min(hi, 5)), rng.gauss(0, 2)])
        eb = rng.choice([0.0, INF, float("nan"), rng.expovariate(1), rng.expovariate(1) * 1e-3, rng.expovariate(1) * 1e3])
        mn = rng.choice([0.0, 0.0, 0.01, rng.expovariate(1) * 0.2])
        clip(mu, eb, lo, hi, mn)
    for _ in range(N(150, 1500)):  # estimates barely inside or outside the limits
        lo = rng.choice([-INF, 0.0, -1.0, 0.25, 1000.0, 1e-8])
        hi = rng.choice([INF, 1.0, 3.0, 1000.0]) if lo < 1000 else rng.choice([INF, 1000.5])
        b = rng.choice([v for v in (lo, hi) if math.isfinite(v)] or [0.0])
        d = rng.choice([0.0, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-6]) * max(abs(b), rng.choice([1.0, abs(b) or 1.0]))
        mu = rng.choice([b + d, b - d, float(np.nextafter(b, INF)), float(np.nextafter(b, -INF))])
        clip(mu, rng.choice([0.0, 0.3, d, INF, float("nan"), 1e-9]), lo, hi, rng.choice([0.0, 0.0, 1e-12, 0.1]))
    means("t", N(120, 1500))
    means("bernstein", N(80, 1000))


def clip(mu, eb, lo, hi, mn):
    kw = {}
    if lo != -INF or rng.random() < 0.5:
        kw["lower"] = lo
    if hi != INF or rng.random() < 0.5:
        kw["upper"] = hi
    if mn or rng.random() < 0.5:
        kw["min_EB"] = mn
    st, o = call(bt.clip_EB, mu, eb, **kw)
    R.ev("clip", mu=X(mu), eb=X(eb), lo=X(lo), hi=X(hi), mn=X(mn), status=st, exc=o if st == "exc" else "", out=xnum(st, o))


def reps(nb):
    r = rng.random()
    if r < 0.15:  # a narrow range far from zero
        m, s = rng.choice([0.7, 1.0, -3.0, 1e4]), rng.choice([1e-6, 1e-9, 1e-11])
        b = [m + s * rng.gauss(0, 1) for _ in range(nb)]
    elif r < 0.4:
        b = [float(rng.randint(-3, 3)) for _ in range(nb)]
    elif r < 0.8:
        b = [rng.gauss(rng.choice([0, 0.5]), 1) for _ in range(nb)]
    else:
        b = [rng.expovariate(1) * 10.0 ** rng.randint(-5, 5) for _ in range(nb)]
    if rng.random() < 0.15:
        for _ in range(rng.randint(1, max(1, nb // 3))):
            b[rng.randrange(nb)] = rng.choice([INF, -INF, INF])
    if rng.random() < 0.05:
        b[rng.randrange(nb)] = float("nan")
    return b


def do_c12():
    pool = [list(x) for x in CASES[:N(200, 1500)]]
    for x in pool:
        perc([x], conf())
    for nb in list(range(1, 45)) + [100, 101, 200]:
        for c in (0.95, 0.9, 0.5, 0.99) if THOROUGH else (rng.choice([0.95, 0.9]), rng.choice([0.5, 0.99, 0.8])):
            perc([reps(nb)], c)
    for _ in range(N(200, 3000)):
        nb = rng.randint(1, 60)
        perc([reps(nb) for _ in range(rng.choice([1, 1, 2, 3, 4]))], conf())
    for nb in [300, 500, 501, 999, 1000, 1001, 2000, 5001, 10001]:
        perc([reps(nb)], rng.choice([0.95, 0.9, 0.99]))
        perc([reps(nb)], rng.choice([0.999, 0.9995, 0.9999, 0.99995, 0.5, 0.001]))
        perc([[rng.gauss(0, 1) for _ in range(nb)]], rng.choice([0.987654, 0.9654321, 0.123456, 1 - 3.0 / nb]))
    for _ in range(N(500, 6000)):
        nb = rng.randint(1, 60) if rng.random() < 0.98 else rng.choice([100, 500, 501, 1000, 1001, 3000])
        b = reps(nb)
        if rng.random() < 0.4:
            ref = rng.choice([0.0, 0.5, b[0], INF, -1.0, float(rng.randint(-3, 3))])
            if math.isnan(ref):
                ref = 0.0
            st, o = call(bu.significance, np.array(b), ref)
            rl = [ref] * nb
        else:
            rl = reps(nb) if rng.random() < 0.7 else list(b)
            if rng.random() < 0.5:
                rl = [v if rng.random() < 0.6 else w for v, w in zip(rl, b)]
            elif rng.random() < 0.4:
                d = rng.choice([1e-6, 1e-9, 1e-11])
                rl = [v if not math.isfinite(v) else v + d * rng.choice([-1, 1, 1, 0, rng.gauss(0, 1)]) for v in b]
            st, o = call(bu.significance, np.array(b), np.array(rl))
        R.ev("sig", b=XS(b), ref=XS(rl), status=st, out=xnum(st, o))


def perc(cols, c):
    nb = len(cols[0])
    ests = [rng.choice([0.0, 0.5, rng.gauss(0, 1), float(np.median([v for v in col if math.isfinite(v)] or [0.0]))]) for col in cols]
    shape = rng.choice(["1d", "2d", "3d"]) if len(cols) == 4 else ("2d" if len(cols) > 1 or rng.random() < 0.2 else "1d")
    A = np.array(cols, dtype=float).T
    E = np.array(ests, dtype=float)
    if shape == "1d" and len(cols) == 1:
        A, E = A[:, 0], ests[0]
    elif shape == "3d":
        A, E = A.reshape(nb, 2, 2), E.reshape(2, 2)
    kw = kwc(c)
    s1, p = call(bu.percentile, A, **kw)
    s2, b = call(bu.basic, A, E, **kw)
    s3 = "ok"
    ebs = []
    for j, col in enumerate(cols):
        s, v = call(bu.error_bar, np.array(col, dtype=float), ests[j], **kw)
        if s != "ok":
            s3 = s
        ebs.append(v)
    ss = [s1, s2, s3]
    anynan = any(math.isnan(v) for col in cols for v in col)
    if anynan:  # every function has to reject
        st = "exc" if s1 == s2 == "exc" and s3 == "exc" else "ok"
    else:
        st = "ok" if ss == ["ok"] * 3 else "exc"
    ev = []
    for j, col in enumerate(cols):
        if st == "ok" and not anynan:
            f = lambda o, k: X(np.asarray(o[k]).ravel()[j])
            ev.append(dict(b=XS(col), est=X(ests[j]), lb=f(p, 0), ub=f(p, 1), blb=f(b, 0), bub=f(b, 1), eb=X(ebs[j])))
        else:
            ev.append(dict(b=XS(col), est=X(ests[j]), lb="nan", ub="nan", blb="nan", bub="nan", eb="nan"))
    R.ev("perc", cols=ev, conf=X(c), status=st)


dict(C08=do_c08, C09=do_c09, C10=do_c10, C11=do_c11, C12=do_c12)[prop]()
R.close()
