"""Records calls of perf_curves and of util's curve helpers (C13 - C15)."""
from common import *
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
INF = float("inf")
F = dict(roc=pc.roc_curve, pr=pc.recall_precision_curve, prg=pc.prg_curve)
CS = list(cases(sys.argv[3:]))


def curve(name, y, s, w=None, loose=False, repeat=False):
    """repeat: the points are repeated w times instead of being weighted"""
    y, s = np.array(y).astype(bool), np.array(s, dtype=float)
    kw = {} if w is None or repeat else dict(sample_weight=np.array(w, dtype=float))
    ya, sa = y, s
    if repeat:
        i = np.random.permutation(np.repeat(np.arange(len(y)), w[0]))
        ya, sa = y[i], s[i]

    def run():
        (x, yy, kind), th = F[name](ya, sa, **kw)
        return x, yy, kind, th, util.area(x, yy, kind)
    st, o = call(run)
    ok = st == "ok"
    R.ev("curve", curve=name, y=[int(v) for v in y], s=XS(s), weighted=w is not None, loose=loose, w=XM(w) if w is not None else [], status=st,
         xs=XM(o[0]) if ok else [], ys=XM(o[1]) if ok else [], kind=str(o[2]) if ok else "", th=XS(o[3]) if ok else [],
         areas=XS(o[4]) if ok else [])


def scores(n):
    t = rng.random()
    if t < 0.3:
        return [rng.randint(0, 3) for _ in range(n)]
    if t < 0.5:
        return [rng.gauss(0, 1) for _ in range(n)]
    if t < 0.6:
        return [rng.choice([0.3, 0.1 + 0.2, 0.3 + 1e-12, 0.5, float(np.nextafter(0.5, 1))]) for _ in range(n)]  # nearly tied
    if t < 0.7:
        return [math.log(rng.random() + 1e-9) for _ in range(n)]
    if t < 0.8:
        return [1.0] * n
    if t < 0.9:
        return sorted((rng.choice([-1e8, 1e-8, 2.0 ** -1000, -5.0, 1e300, 0.0]) for _ in range(n)), reverse=True)
    return [rng.randint(-2, 2) * 1e-12 for _ in range(n)]


def weights(n, rows):
    t = rng.random()
    if t < 0.4:
        return [[rng.choice([0.25, 1, 2, 3]) for _ in range(n)] for _ in range(rows)]
    if t < 0.8:
        return [[rng.uniform(0.05, 3) for _ in range(n)] for _ in range(rows)]
    return [[float(rng.randint(1, 5)) * 10.0 ** r for _ in range(n)] for r in range(rows)]


def c13():
    rng.shuffle(CS)
    two = [c for c in CS if len(set(c["y"])) == 2]
    for c in two[:N(400, 3000)]:
        for name in rng.sample(list(F), 2):
            s = [num(v) for v in c["s"]]
            n = len(s)
            w = None if rng.random() < 0.4 else [[rng.choice([1, 2, 3, 0.5]) for _ in range(n)] for _ in range(rng.randint(1, 3))]
            curve(name, c["y"], s, w)
    for _ in range(N(500, 4000)):
        n = rng.choice([2, 3, 5, 8, 12, 20, 40] + ([150] if THOROUGH else []))
        y = [rng.randint(0, 1) for _ in range(n)]
        y[rng.randrange(n)] = 1 - y[0] if len(set(y)) == 1 else y[0]
        if len(set(y)) == 1:
            y[0], y[1] = 0, 1
        s = scores(n)
        if rng.random() < 0.15:  # perfect or perfectly wrong ranking
            s = [v * rng.choice([1, -1]) for v in y] if rng.random() < 0.3 else [float(v) for v in y]
        name = rng.choice(list(F))
        curve(name, y, s, None if rng.random() < 0.35 else weights(n, rng.randint(1, 4)))


    for _ in range(N(24, 150)):  # long score vectors, many rows of weights
        n = rng.choice([60, 101, 150, 257])
        y = [int(rng.random() < rng.choice([0.1, 0.5])) for _ in range(n)]
        y[0], y[1] = 0, 1
        s = scores(n) if rng.random() < 0.5 else [rng.gauss(v, 1) for v in y]
        curve(rng.choice(list(F)), y, s, None if rng.random() < 0.4 else weights(n, rng.randint(1, 2)))
    for tot in [130, 260, 2000, 40000, 70000, 140000, 300000]:  # many points, few distinct ones
        for name in F:
            n = rng.choice([2, 3, 5])
            y = [0, 1] + [rng.randint(0, 1) for _ in range(n - 2)]
            rng.shuffle(y)
            q = np.random.dirichlet([rng.choice([0.5, 1, 5])] * n)
            w = [[max(1, int(tot * v)) for v in q]]
            curve(name, y, rng.sample([-3.0, 0.0, 0.25, 1.0, 7.5, 1.5, 1e-3], n), w, repeat=True)
            curve(name, y, [1.0] * n, w, repeat=True)
    for _ in range(N(8, 60)):
        n = rng.choice([3, 6])
        curve(rng.choice(list(F)), [0, 1] + [rng.randint(0, 1) for _ in range(n - 2)], scores(n), weights(n, rng.choice([30, 101])))
    for _ in range(N(150, 1500)):  # bootstrap weights: counts floored at 1e-10
        n = rng.choice([2, 3, 4, 6, 10, 20])
        y = [0, 1] + [rng.randint(0, 1) for _ in range(n - 2)]
        rng.shuffle(y)
        w = np.maximum(1e-10, np.random.multinomial(n, np.ones(n) / n, size=rng.choice([1, 3, 8])))
        curve(rng.choice(list(F)), y, scores(n), w, loose=True)


def c14():
    rng.shuffle(CS)
    one = [c for c in CS if len(set(c["y"])) == 1]
    for c in one:
        for name in F:
            s = [num(v) for v in c["s"]]
            n = len(s)
            for w in (None, weights(n, 2)):
                curve(name, c["y"], s, w)
    for _ in range(N(250, 2000)):
        n = rng.choice([1, 2, 3, 5, 8, 20, 50]) if _ % 25 else rng.choice([101, 201])
        y = [rng.randint(0, 1)] * n
        w = None
        t = rng.random()
        if t < 0.4:
            w = weights(n, rng.randint(1, 3))
        elif t < 0.6:  # bootstrap weights
            w = np.maximum(1e-10, np.random.multinomial(n, np.ones(n) / n, size=3))
        curve(rng.choice(list(F)), y, scores(n), w)
    for _ in range(N(60, 400)):
        n = rng.choice([1, 2, 3, 6, 15])
        y0 = rng.randint(0, 1)
        y = np.array([y0] * n, dtype=rng.choice([bool, int]))
        name = rng.choice(list(F))
        p = np.log(np.random.dirichlet([1, 1], size=n))
        if rng.random() < 0.3:
            p = np.log(np.repeat([[0.25, 0.75]], n, axis=0))
        ref = dict(roc=0.5, pr=float(y0), prg=0.0)[name] if rng.random() < 0.5 else np.log(np.random.dirichlet([1, 1], size=n))
        pair = rng.random() < 0.5
        st, o = call(btc.curve_boot, y, p, ref, curve_f=F[name], n_boot=rng.choice([1, 20, 50]), pairwise_CI=pair)
        ok = st == "ok"
        R.ev("bootone", curve=name, y=[int(v) for v in y], status=st, mu=X(o[0][0]) if ok else "nan", eb=X(o[0][1]) if ok else "nan",
             p=X(o[0][2]) if ok else "nan", band=XS(o[1].values) if ok else [])


def xs(n, dup=True):
    x, v = [], rng.choice([0.0, 0.0, -1.0, 0.125])
    for _ in range(n):
        x.append(v)
        if not (dup and rng.random() < 0.35):
            v += rng.choice([0.125, 0.25, 0.5, 1.0, rng.uniform(0.01, 2)])
    return x


def scaled(x, y):
    """Sometimes a curve over a very narrow or wide range, or of very low or high values."""
    a, b = (rng.choice([1.0, 1e-9, 1e-4, 1e6, 1e12]) for _ in range(2)) if rng.random() < 0.15 else (1.0, 1.0)
    return [[a * v for v in r] for r in x], [[b * v for v in r] for r in y]


def c15():
    for _ in range(N(500, 4000)):
        kind = rng.choice(["previous", "linear"])
        n, rows = rng.choice([2, 2, 3, 4, 6, 10, 30]), rng.randint(1, 4)
        if _ % 25 == 0:
            n, rows = rng.choice([(101, 2), (300, 1), (3, 40)])
        x = [xs(n) for _ in range(rows)]
        y = [[rng.choice([0.0, 1.0, 0.5, rng.gauss(0, 2), -3.0]) for _ in range(n)] for _ in range(rows)]
        if kind == "previous":
            sign = rng.choice([-INF, -INF, INF])
            for r in range(rows):
                for k in range(n):
                    if rng.random() < (0.6 if k < n - 1 and x[r][k] == x[r][k + 1] else 0.1):
                        y[r][k] = sign
        x, y = scaled(x, y)
        st, o = call(util.area, np.array(x), np.array(y), kind)
        R.ev("area", kind=kind, xs=XM(x), ys=XM(y), status=st, out=XS(o) if st == "ok" else [])
    for _ in range(N(500, 4000)):
        kind = rng.choice(["previous", "linear"])
        n, rows = rng.choice([2, 2, 3, 4, 6, 10]), rng.randint(1, 3)
        if _ % 25 == 0:
            n, rows = rng.choice([(101, 2), (300, 1), (4, 20)])
        x, _y = scaled([xs(n) for _ in range(rows)], [])
        lo, hi = max(r[0] for r in x), min(r[-1] for r in x)
        if lo > hi:
            x = x[:1]
            rows = 1
            lo, hi = x[0][0], x[0][-1]
        y = [[rng.choice([0.0, 1.0, 0.5, rng.gauss(0, 2), -3.0]) for _ in range(n)] for _ in range(rows)]
        if kind == "previous":
            for r in range(rows):
                for k in range(n):
                    if rng.random() < 0.15:
                        y[r][k] = -INF
        if kind == "linear":  # a piecewise linear function needs two distinct points
            if any(len(set(r)) < 2 for r in x):
                continue
        pts = [v for r in x for v in r if lo <= v <= hi]
        g = [rng.choice(pts + [lo, hi]) if rng.random() < 0.7 else rng.uniform(lo, hi) for _ in range(rng.randint(1, 8))]
        if rng.random() < 0.5:
            g.sort()
        st, o = call(util.interp1d, np.array(g), np.array(x), np.array(y), kind)
        R.ev("interp", kind=kind, grid=XS(g), xs=XM(x), ys=XM(y), status=st, out=XM(o) if st == "ok" else [])
    for _ in range(N(400, 3000)):
        n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if _ % 40 else 101
        x = xs(n, dup=rng.random() < 0.2)
        y = [rng.choice([0.0, 1.0, -INF, rng.gauss(0, 1)]) for _ in range(n)]
        ty = dict(x=float)
        asort = rng.random() < 0.4
        if not asort:
            perm = list(range(n))
            rng.shuffle(perm)
            x, y = [x[i] for i in perm], [y[i] for i in perm]
        hasival = n == 0 or rng.random() < 0.5
        ival = rng.choice([0.0, -1.0, INF, 7.5])
        g = [rng.choice(x) if x and rng.random() < 0.6 else rng.uniform(-2, 5) for _ in range(rng.randint(0, 6))]
        if not hasival and rng.random() < 0.8:
            g = [max(v, min(x)) for v in g]
        skip = len(set(x)) == n and rng.random() < 0.3
        kw = dict(assume_sorted=asort, skip_unique_chk=skip)
        if hasival:
            kw["ival"] = ival
        st, o = call(util.eval_step_func, np.array(g, dtype=float), np.array(x, dtype=float), np.array(y, dtype=float), **kw)
        R.ev("step", grid=XS(g), x=XS(x), y=XS(y), hasival=hasival, ival=X(ival), skip=skip, status=st, out=XS(o) if st == "ok" else [])
    for _ in range(N(250, 2000)):
        n = rng.choice([0, 1, 2, 3, 5, 9]) if _ % 40 else 101
        x = xs(n)
        if rng.random() < 0.2:
            rng.shuffle(x)
        if rng.random() < 0.2 and x:
            x[-1] = INF
        if rng.random() < 0.2:
            x = sorted(rng.choice([1.0, float(np.nextafter(1.0, 2)), 1.0 + 1e-12, 2.0]) for _ in range(n))
        y = [rng.gauss(0, 1) for _ in range(n)]
        hasy = rng.random() < 0.7
        dt = rng.choice([float, float, int]) if all(v != INF for v in x) else float
        xa = np.array(x, dtype=dt)
        st, o = call(util.unique_take_last, xa, np.array(y, dtype=float)) if hasy else call(util.unique_take_last, xa)
        ok = st == "ok"
        R.ev("uniq", x=XS(xa), y=XS(y), hasy=hasy, status=st, ox=XS(o[0]) if ok else [], oy=XS(o[1]) if ok and hasy else [])
    for _ in range(N(250, 2000)):
        n = rng.choice([0, 1, 2, 3, 5, 9, 20]) if _ % 40 else 101
        t = rng.random()
        x = xs(n) if t < 0.4 else [rng.choice([0.0, 1.0, -1.0, rng.gauss(0, 3), 1e-300, 1e10]) for _ in range(n)]
        a = np.array(x, dtype=float)
        copy = rng.random() < 0.6
        st, o = call(util.cummax_strict, a, copy=copy) if rng.random() < 0.8 or not copy else call(util.cummax_strict, a)
        R.ev("cummax", x=XS(x), status=st, out=XS(o) if st == "ok" else [])


dict(C13=c13, C14=c14, C15=c15)[prop]()
R.close()
