"""Records prediction tables, checkpoint histories and one-call benchmarks (C22 - C24).
The estimators here log every call to a file, so that copies, other processes and
crashes are seen too."""
from common import *
import hashlib, shutil, tempfile
from contextlib import redirect_stdout
import io
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
INF = float("inf")
X_ = X
LOG = os.path.join(SCRATCH, "calls.log")


def dig(a):
    a = np.asarray(a)
    return "%s%s:%s" % (a.dtype.kind, "x".join(map(str, a.shape)), hashlib.sha1(np.ascontiguousarray(a, dtype=float).tobytes()).hexdigest()[:12])


def log(*a):
    with open(LOG, "a") as f:
        f.write(json.dumps(a) + "\n")


def take_log():
    r = [json.loads(x) for x in open(LOG)] if os.path.exists(LOG) else []
    open(LOG, "w").close()
    return r


def code(X):
    """A number per row that depends on every entry."""
    X = np.asarray(X, dtype=float).reshape(len(X), -1)
    return (X * (1 + np.arange(X.shape[1]))).sum(axis=1)


class Crash(Exception):
    pass


class Base:
    def __init__(self, tag, n_labels=2, extreme=False):
        self.tag, self.n_labels, self.extreme = tag, n_labels, extreme

    def fit(self, X, y):
        log(self.tag, "fit", dig(X), dig(y))
        self.state = float((code(X) * (1 + np.arange(len(X)) / len(X))).sum() + 3 * (np.asarray(y, dtype=float) * (1 + np.arange(len(y)))).sum())
        return self

    def raw(self, X):
        h = np.sin(code(X)[:, None] * (1 + np.arange(self.n_labels)) + self.state + len(self.tag) + sum(map(ord, self.tag)))
        return h

    def raw_log(self, X):
        h = 3 * self.raw(X)
        if self.extreme == "nan":  # a method that fails on some points
            h[::2, -1] = float("nan")
            return h
        if self.extreme:  # some zero probabilities, some tiny ones
            h = np.where(h < -2, -INF, h * 10)
            h[:, 0] = np.where(np.isinf(h).all(axis=1), 0.0, h[:, 0])
        return h

    def raw_prob(self, X):
        e = np.exp(self.raw_log(X))
        return e / e.sum(axis=1, keepdims=True)

    def raw_gauss(self, X):
        h = Base.raw(self, X)
        if self.extreme == "nan":
            return np.where(h[:, 0] > 0.3, float("nan"), h[:, 0]), np.where(h[:, 0] < -0.3, float("nan"), np.abs(h[:, -1]) + 0.01)
        return h[:, 0] * 4, np.abs(h[:, -1]) * (0.0 if self.extreme else 1.0) + (0.0 if self.extreme else 0.01)


class LogOnly(Base):
    kind = "log"

    def predict_log_proba(self, X):
        log(self.tag, "predict", dig(X), "")
        return self.raw_log(X)


class Both(LogOnly):
    def predict_proba(self, X):  # must not be used: log probabilities are available
        log(self.tag, "predict", dig(X), "")
        return np.full((len(X), self.n_labels), 1.0 / self.n_labels)


class ProbOnly(Base):
    kind = "prob"

    def predict_proba(self, X):
        log(self.tag, "predict", dig(X), "")
        return self.raw_prob(X)


class LogBroken(ProbOnly):
    def predict_log_proba(self, X):
        raise NotImplementedError("no log probabilities")


class Gauss(Base):
    kind = "std"

    def predict(self, X, return_std=False):
        log(self.tag, "predict", dig(X), "")
        mu, sd = self.raw_gauss(X)
        return (mu, sd) if return_std else mu


class MeanOnly(Base):
    kind = "mean"

    def predict(self, X):
        log(self.tag, "predict", dig(X), "")
        return self.raw_gauss(X)[0]


class MeanInt(Base):
    kind = "mean"

    def predict(self, X):
        log(self.tag, "predict", dig(X), "")
        return np.round(self.raw_gauss(X)[0]).astype(int)

    def raw_gauss(self, X):
        mu, sd = Base.raw_gauss(self, X)
        return np.round(mu), sd


NAMES = ["svm", "rf", "GP", "noise", "m10", "m2", "B", "a"]
CLASSIF = [LogOnly, Both, ProbOnly, LogBroken]
REGR = [Gauss, MeanOnly, MeanInt, Gauss]


def data(k=None, d=None, ntr=None, nte=None, ndim=2):
    d = d or rng.randint(1, 3)
    ntr, nte = ntr or rng.randint(2, 6), nte or rng.randint(1, 5)
    sh = (d,) if ndim == 2 else (d, 2)
    ints = rng.random() < 0.2
    f = (lambda n: np.random.randint(-3, 4, size=(n,) + sh)) if ints else (lambda n: np.random.randn(*((n,) + sh)))
    return f(ntr), f(nte), ntr, nte


def labs(n, k):
    y = np.random.randint(0, k, size=n)
    return y.astype(bool) if k <= 2 and rng.random() < 0.4 else y


def entries(l):
    return [dict(m=a[0], what=a[1], x=a[2], y=a[3]) for a in l if a[1] in ("fit", "predict")]


def raws(objs, X, y, Xt, task):
    """Raw outputs of fresh copies of the estimators (not through the library)."""
    r = {}
    for nm, o in objs.items():
        c = o.__class__(o.tag, o.n_labels, o.extreme)
        c.fit(X, y)
        if task == "class":
            r[nm] = XM(c.raw_log(Xt) if c.kind == "log" else c.raw_prob(Xt))
        else:
            r[nm] = XM(np.stack(c.raw_gauss(Xt), axis=1))
    take_log()
    return r


def ctab(big=False):
    k = rng.choice([1, 2, 2, 3, 5]) if not big else rng.choice([2, 3, 10, 26, 101])
    X, Xt, ntr, nte = data(ndim=rng.choice([2, 2, 2, 3]))
    if big:
        X, Xt, ntr, nte = data(d=rng.choice([1, 20]), ntr=rng.choice([3, 500]), nte=120 if k <= 3 else 12)
    y = labs(ntr, k)
    names = rng.sample(NAMES, rng.randint(1, 4) if not big else rng.randint(1, 8))
    objs = {nm: rng.choice(CLASSIF)(nm, k, rng.random() < 0.3) for nm in names}
    if rng.random() < 0.1:
        objs[rng.choice(names)].extreme = "nan"
    raw = raws(objs, X, y, Xt, "class")
    fl = rng.choice([-INF, -INF, -1.0, -5.0, -0.1, -50.0, -700.0, -1e4])
    kw = dict(min_log_prob=fl) if fl > -INF or rng.random() < 0.3 else {}
    if rng.random() < 0.2:
        kw["verbose"] = True
    if rng.random() < 0.2:
        kw["checkpointdir"] = tempfile.mkdtemp(dir=SCRATCH)
    take_log()
    with redirect_stdout(io.StringIO()):
        st, t = call(btc.get_pred_log_prob, X, y, Xt, k, objs, **kw)
    lb = st == "ok" and sorted(t.columns) == sorted((n, j) for n in names for j in range(k)) and list(t.index) == list(range(nte)) and list(t.columns.names) == ["method", "label"]
    ms = [dict(name=n, kind=objs[n].kind, raw=raw[n], rows=XM(t[n][list(range(k))].values) if lb else []) for n in names]
    R.ev("ctab", status=st, labels=bool(lb), floor=X_(fl), methods=ms, log=entries(take_log()), logged=True, xtrain=dig(X), ytrain=dig(y), xtest=dig(Xt))
    if "checkpointdir" in kw:
        shutil.rmtree(kw["checkpointdir"], ignore_errors=True)


def gtab(big=False):
    X, Xt, ntr, nte = data() if not big else data(d=rng.choice([1, 20]), ntr=rng.choice([3, 500]), nte=rng.choice([1, 60, 300]))
    y = np.random.randn(ntr)
    names = rng.sample(NAMES, rng.randint(1, 4) if not big else rng.randint(1, 8))
    objs = {nm: rng.choice(REGR)(nm, 2, rng.random() < 0.3) for nm in names}
    if rng.random() < 0.1:
        nm = rng.choice(names)
        objs[nm] = rng.choice([Gauss, MeanOnly])(nm, 2, "nan")
    raw = raws(objs, X, y, Xt, "regr")
    fl = rng.choice([0.0, 0.0, 0.1, 0.5, 1.0, 2.0, 1e-6, 1e-12, 50.0])
    kw = dict(min_std=fl) if fl > 0 or rng.random() < 0.3 else {}
    if rng.random() < 0.2:
        kw["verbose"] = True
    take_log()
    with redirect_stdout(io.StringIO()):
        st, t = call(btr.get_gauss_pred, X, y, Xt, objs, **kw)
    lb = st == "ok" and sorted(t.columns) == sorted((n, j) for n in names for j in ("mu", "std")) and list(t.index) == list(range(nte)) and list(t.columns.names) == ["method", "moment"]
    ms = [dict(name=n, kind=objs[n].kind, raw=raw[n], rows=XM(np.stack((t[(n, "mu")].values, t[(n, "std")].values), axis=1)) if lb else []) for n in names]
    R.ev("gtab", status=st, labels=bool(lb), floor=X_(fl), methods=ms, log=entries(take_log()), logged=True, xtrain=dig(X), ytrain=dig(y), xtest=dig(Xt))


def noisec():
    k, n, m = rng.choice([1, 2, 2, 3, 5, 30]), rng.choice([1, 2, 5, 9, 40, 700]), rng.randint(1, 4)
    y, pc = labs(n, k), rng.choice([0.0, 0.0, 1.0, 0.5, 2.0, 1e-6, 250.0])

    def run():
        with np.errstate(divide="ignore"):
            if rng.random() < 0.5:
                o = btc.JustNoise(k, pc) if k != 2 or pc else btc.JustNoise()
                o.fit(np.random.randn(n, 2), y)
                return o.predict_log_proba(np.random.randn(m, 2))
            nm = {"z": btc.JustNoise(k, pc)}
            return btc.get_pred_log_prob(np.random.randn(n, 2), y, np.random.randn(m, 2), k, nm)["z"].values
    st, o = call(run)
    R.ev("noisec", y=[int(v) for v in y], n=k, pc=X_(pc), npts=m, status=st, rows=XM(o) if st == "ok" else [])


def noiser():
    n, m = rng.choice([2, 3, 5, 9, 40, 1000]), rng.randint(1, 4)
    y = np.random.randn(n) * rng.choice([1, 100, 0.01, 1e-8, 1e9]) + rng.choice([0, 0, 5, -1000]) if rng.random() < 0.8 else np.full(n, rng.choice([0.0, 2.5]))

    def run():
        if rng.random() < 0.5:
            o = btr.JustNoise()
            o.fit(np.random.randn(n, 2), y)
            return o.predict(np.random.randn(m, 2), return_std=True) if rng.random() < 0.5 else o.predict(np.random.randn(m, 2))
        t = btr.get_gauss_pred(np.random.randn(n, 2), y, np.random.randn(m, 2), {"z": btr.JustNoise()})
        return t[("z", "mu")].values, t[("z", "std")].values
    st, o = call(run)
    R.ev("noiser", y=XS(y), npts=m, status=st, mu=XS(o[0]) if st == "ok" else [], sd=XS(o[1]) if st == "ok" else [])


def c22():
    for _ in range(N(250, 2000)):
        ctab()
    for _ in range(N(250, 2000)):
        gtab()
    for _ in range(N(5, 60)):
        ctab(big=True)
        gtab(big=True)
    for _ in range(N(150, 1000)):
        noisec()
    for _ in range(N(150, 1000)):
        noiser()


# ---- checkpoint histories
class Ck(Base):
    """A method whose identity is its configuration; crashes on request."""
    kind = "log"

    def fit(self, X, y):
        f = os.path.join(SCRATCH, "crash")
        how = open(f).read() if os.path.exists(f) else ""
        if how == self.tag + " fit":
            log(self.tag, "fit", "", "")
            raise Crash()
        if how == self.tag + " kill":
            log(self.tag, "fit", "", "")
            os._exit(9)
        if how == self.tag + " interrupt":
            log(self.tag, "fit", "", "")
            raise KeyboardInterrupt()
        return Base.fit(self, X, y)

    def crash_in_predict(self):
        f = os.path.join(SCRATCH, "crash")
        how = open(f).read() if os.path.exists(f) else ""
        if how == self.tag + " predict":
            raise Crash()

    def predict_log_proba(self, X):
        self.crash_in_predict()
        o = self.raw_log(X)
        log(self.tag, "done", dig(X), "")
        return o

    def predict_proba(self, X):
        self.crash_in_predict()
        raise Crash()

    def predict(self, X, return_std=True):
        self.crash_in_predict()
        o = self.raw_gauss(X)
        log(self.tag, "done", dig(X), "")
        return o


def changed(A):
    """A copy of A that differs a little: one entry, or two rows swapped."""
    B = A.copy()
    i, j = rng.randrange(len(A)), rng.randrange(len(A))
    if not np.array_equal(A[i], A[j]) and rng.random() < 0.4:
        B[i], B[j] = A[j], A[i]
    else:
        B[i, rng.randrange(A.shape[1])] += 1 if A.dtype.kind == "i" else rng.choice([1.0, 0.5, 2.0 ** -30])
    return B


def history(spec, task):
    """spec: list of (methods, data version, crash cfg, checkpointed)"""
    k = 3 if task == "class" else 2
    X, Xt, ntr, nte = data(ntr=rng.choice([2, 4, 4, 5]), nte=rng.choice([1, 2, 2, 3, 6]), d=rng.choice([1, 2, 2, 3])) if rng.random() < 0.9 else data(ntr=rng.choice([300, 2000]), nte=rng.choice([30, 60]), d=rng.choice([2, 15]))
    y = labs(ntr, k) if task == "class" else np.random.randn(ntr)
    X2, Xt2, y2 = changed(X), changed(Xt), y.copy()
    i, j = rng.randrange(ntr), rng.randrange(ntr)
    if y[i] != y[j] and rng.random() < 0.4:
        y2[i], y2[j] = y[j], y[i]
    else:
        y2[i] = (y2[i] + 1) % 3 if task == "class" and y.dtype.kind == "i" else (~y2[i] if task == "class" else y2[i] + rng.choice([0.5, 2.0 ** -30]))
    D = dict(base=(X, y, Xt), xtrain=(X2, y, Xt), ytrain=(X, y2, Xt), xtest=(X, y, Xt2))
    ck = tempfile.mkdtemp(dir=SCRATCH)
    crash_file = os.path.join(SCRATCH, "crash")
    runs = []
    for ms, dv, crash, ckpt in spec:
        a, b, c = D[dv]
        nm = rng.sample(NAMES, len(ms))
        objs = {nm[i]: Ck(ms[i], k) for i in range(len(ms))}
        raw = {}
        for n, o in objs.items():
            f = Ck(o.tag, k)
            Base.fit(f, a, b)
            raw[n] = XM(f.raw_log(c)) if task == "class" else XM(np.stack(f.raw_gauss(c), axis=1))
        take_log()
        how = rng.choice(["fit", "fit", "predict", "interrupt", "kill"]) if crash else ""
        if how:
            open(crash_file, "w").write(crash + " " + how)
        fl = rng.choice([-INF, -1.0, -2.0]) if task == "class" else rng.choice([0.0, 0.3, 0.8])
        kw = {}
        if ckpt:
            kw["checkpointdir"] = ck
        elif rng.random() < 0.5:
            kw["checkpointdir"] = None

        def go():
            if task == "class":
                return btc.get_pred_log_prob(a, b, c, k, objs, min_log_prob=fl, **kw)
            return btr.get_gauss_pred(a, b, c, objs, min_std=fl, **kw)
        if how == "kill":  # the process dies
            pid = os.fork()
            if pid == 0:
                try:
                    go()
                finally:
                    os._exit(0)
            _, code_ = os.waitpid(pid, 0)
            st, t = ("exc" if os.WEXITSTATUS(code_) == 9 else "ok-child"), None
            if st == "ok-child":  # did not crash: everything was loaded
                st, t = call(go)
        else:
            try:
                st, t = call(go)
            except KeyboardInterrupt:
                st, t = "exc", None
        if os.path.exists(crash_file):
            os.remove(crash_file)
        lg = take_log()
        rows = {}
        for n in objs:
            if st == "ok":
                rows[n] = XM(t[n][list(range(k))].values) if task == "class" else XM(np.stack((t[(n, "mu")].values, t[(n, "std")].values), axis=1))
            else:
                rows[n] = []
        runs.append(dict(ms=[dict(name=n, cfg=o.tag, raw=raw[n], rows=rows[n]) for n, o in objs.items()], data=dv, crash=crash, ckpt=ckpt, floor=X_(fl),
                         status=st, how=how, fits=[e[0] for e in lg if e[1] == "fit"], done=[e[0] for e in lg if e[1] == "done"]))
    R.ev("history", task=task, runs=runs)
    shutil.rmtree(ck, ignore_errors=True)


def c23():
    cs = list(cases(sys.argv[3:]))
    rng.shuffle(cs)
    for i, c in enumerate(cs[:N(220, 1408)]):
        spec = [(r["ms"], r["data"], r["crash"], r["ckpt"]) for r in c]
        spec.append((["A", "B"], spec[0][1], "", True))
        history(spec, "class" if i % 2 else "regr")
    for i in range(N(60, 600)):
        spec = []
        for _ in range(rng.randint(3, 6)):
            ms = rng.choice([["A"], ["A", "B"], ["B", "C", "A"], ["C", "B"], ["A", "B", "C", "D"]])
            spec.append((ms, rng.choice(["base", "base", "xtrain", "ytrain", "xtest"]), rng.choice(ms + [""] * 3), rng.random() < 0.85))
        spec.append((["A", "B", "C", "D"], rng.choice(["base", "xtest"]), "", True))
        history(spec, "class" if i % 2 else "regr")


# ---- one-call benchmarks
from taps import Tap  # noqa: E402


def bench_class(full, big=False):
    """full: record the resamples of the curves too"""
    k = 2
    how = rng.choice(["t", "t", "bernstein", "boot"])
    nte = rng.randint(4, 5) if full else (4 if how == "boot" else rng.randint(3, 8))
    if big:
        nte = rng.choice([60, 100]) if how == "boot" else rng.choice([25, 60])
    X, Xt, ntr, nte = data(nte=nte, ntr=rng.randint(2, 6) if not big else 60)
    y, yt = labs(ntr, k), labs(nte, k)
    yt = yt.astype(y.dtype)
    yt[0], yt[1] = 0, 1
    names = rng.sample(NAMES, 2 if full else rng.randint(1, 4) if not big else rng.randint(3, 8))
    objs = {n: rng.choice(CLASSIF)(n, k, rng.random() < 0.3) for n in names}
    ref = rng.choice(names)
    fl = rng.choice([-5.0, -2.0, -1.0, -INF, -200.0, -1000.0])
    if fl == -INF:
        for o in objs.values():
            o.extreme = False
    pair = rng.random() < 0.5
    losses = {n: f for n, f in btc.STD_CLASS_LOSS.items() if rng.random() < 0.6} or {"zero_one": btc.hard_loss}
    lim = {}
    if "zero_one" in losses and rng.random() < 0.7:
        lim["zero_one"] = (0.0, 1.0)
    if "Brier" in losses and rng.random() < 0.7:
        lim["Brier"] = (0.0, 4.0)
    # the parts
    fresh = {n: o.__class__(o.tag, o.n_labels, o.extreme) for n, o in objs.items()}
    tab = btc.get_pred_log_prob(X, y, Xt, k, fresh, min_log_prob=fl)
    if not np.all(np.isfinite(tab.values)):
        return
    ltab = btc.loss_table(tab, yt, losses)
    take_log()
    cd = {"AUC%d" % i: Tap(c) for i, c in enumerate(["roc", rng.choice(["pr", "prg"])] if full else [rng.choice(["roc", "pr"])])}
    kw = {}
    if fl > -INF or rng.random() < 0.5:
        kw["min_pred_log_prob"] = fl
    if pair or rng.random() < 0.5:
        kw["pairwise_CI"] = pair
    if how != "t" or rng.random() < 0.5:
        kw["method_EB"] = how
    if lim or rng.random() < 0.5:
        kw["limits"] = lim
    st, o = call(btc.just_benchmark, X, y, Xt, yt, k, objs, losses, cd, ref, **kw)
    finish(st, o[0] if st == "ok" else None, names, losses, cd, lim, ltab, tab, yt, ref, pair, how, X, y, Xt, o[1] if st == "ok" else None, full)


def finish(st, t, names, losses, cd, lim, ltab, tab, yt, ref, pair, how, X, y, Xt, dump, full=False):
    lb = st == "ok" and sorted(t.index) == sorted(names) and sorted(t.columns) == sorted((c, s) for c in list(losses) + list(cd) for s in ("mean", "error", "p"))
    if dump is not None:
        lb = lb and sorted(dump) == sorted((m, c) for m in names for c in cd)
    metrics, cells = [], []
    if lb:
        for q in losses:
            lo, hi = lim.get(q, (-INF, INF))
            metrics.append(dict(name=q, lo=X_(lo), hi=X_(hi), cells=[dict(method=m, loss=XS(ltab[(q, m)].values), mean=X_(t.loc[m, (q, "mean")]),
                                                                     error=X_(t.loc[m, (q, "error")]), p=X_(t.loc[m, (q, "p")])) for m in names]))
        for c, tap in cd.items():
            for m in names:
                s, sr = tab[(m, 1)].values, tab[(ref, 1)].values
                rows = tap.rows(s, full)
                refs = {w.tobytes(): cc for w, cc in tap.rows(sr, full and m != ref)}
                reps = [dict(c=cc, rc=refs.get(w.tobytes(), cc)) for w, cc in rows] if m != ref and full else []
                cells.append(dict(curve=tap.name, s=XS(s), sr=XS(sr), mu=X_(t.loc[m, (c, "mean")]), eb=X_(t.loc[m, (c, "error")]), p=X_(t.loc[m, (c, "p")]),
                                  isref=m == ref, full=full, reps=reps, witness=bool(len(rows) > 0 and all(w.tobytes() in refs for w, _ in rows))))
    R.ev("bench", status=st, labels=bool(lb), names=names, log=entries(take_log()), xtrain=dig(X), ytrain=dig(y), xtest=dig(Xt), ref=ref, pairwise=pair,
         conf=X_(0.95), how=how, metrics=metrics, cells=cells, y=[int(v) for v in yt] if cd else [])


def bench_regr(big=False):
    how = rng.choice(["t", "t", "bernstein", "boot"])
    nte = rng.choice([2, 3, 4]) if how == "boot" else rng.randint(2, 8)
    if big:
        nte = rng.choice([60, 100, 200])
    X, Xt, ntr, nte = data(nte=nte, ntr=None if not big else 60)
    y, yt = np.random.randn(ntr) * 2, np.random.randn(nte) * 2
    names = rng.sample(NAMES, rng.randint(1, 4) if not big else rng.randint(3, 8))
    objs = {n: rng.choice(REGR)(n, 2, rng.random() < 0.3) for n in names}
    ref = rng.choice(names)
    fl = rng.choice([0.1, 0.5, 1.0, 3.0, 40.0])
    if rng.random() < 0.3:
        fl = 0.0
        for o in objs.values():
            o.extreme = False
    pair = rng.random() < 0.5
    losses = {n: f for n, f in btr.STD_REGR_LOSS.items() if rng.random() < 0.7} or {"MSE": btr.square_loss}
    lim = {}
    if "MAE" in losses and rng.random() < 0.7:
        lim["MAE"] = (0.0, 100.0)
    if "MSE" in losses and rng.random() < 0.7:
        lim["MSE"] = (0.0, 5000.0)
    fresh = {n: o.__class__(o.tag, o.n_labels, o.extreme) for n, o in objs.items()}
    tab = btr.get_gauss_pred(X, y, Xt, fresh, min_std=fl)
    ltab = btr.loss_table(tab, yt, losses)
    take_log()
    kw = {}
    if fl > 0 or rng.random() < 0.5:
        kw["min_std"] = fl
    if pair or rng.random() < 0.5:
        kw["pairwise_CI"] = pair
    if how != "t" or rng.random() < 0.5:
        kw["method_EB"] = how
    if lim or rng.random() < 0.5:
        kw["limits"] = lim
    st, t = call(btr.just_benchmark, X, y, Xt, yt, objs, losses, ref, **kw)
    finish(st, t if st == "ok" else None, names, losses, {}, lim, ltab, tab, yt, ref, pair, how, X, y, Xt, None)


def c24():
    for _ in range(N(6, 60)):
        bench_class(True)
    for _ in range(N(20, 300)):
        bench_class(False)
    for _ in range(N(90, 900)):
        bench_regr()
    for _ in range(N(2, 30)):
        bench_class(False, big=True)
    for _ in range(N(6, 80)):
        bench_regr(big=True)


dict(C22=c22, C23=c23, C24=c24)[prop]()
R.close()
