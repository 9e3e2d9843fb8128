"""Records calls of mlpaper.sciprint (C01 - C06)."""
from common import *
import re
prop, out = sys.argv[1], sys.argv[2]
R = Rec(out)
CASES = list(cases(sys.argv[3:]))
NOLIM = 1000000
STATS = ["mean", "error", "p"]
NAMES = ["AUC", "AP", "log_loss", "Brier", "zero_one_loss", "NLL", "0-1", "sq err", "time", "z_score", "a_b_c", "MSE"]
METHODS = ["svm", "rand_forest", "GP", "Neural Net", "just noise", "m1", "m10", "m2", "lin-reg", "0", "x(y)", "a.b"]
NAMES_MANY = NAMES + ["metric_%d" % i for i in range(3, 16)]
METHODS_MANY = METHODS + ["a method with a rather long descriptive name that goes on for more than fifty characters"] + ["method-%02d" % i for i in range(80)]
FORMATS = [{}, {}, {"nan": "--"}, {"inf": r"\infty", "-inf": r"-\infty", "nan": "N/A"}, {"nan": "", "inf": "oo"}, {"-inf": "neg"}]


def fake_latex(self, buf=None, escape=None, column_format=None, index_names=True, index=True, **kw):
    """Stand-in for DataFrame.to_latex, which needs jinja2 (not installed)."""
    def esc(s):
        s = str(s)
        if escape is False:
            return s
        return "".join({"_": r"\_", "$": r"\$", "{": r"\{", "}": r"\}", "\\": r"\textbackslash ", "%": r"\%", "&": r"\&"}.get(c, c) for c in s)
    L = [r"\begin{tabular}{%s}" % column_format, r"\toprule"]
    L.append(" & ".join([" "] + [esc(c) for c in self.columns]) + r" \\")
    L.append(r"\midrule")
    for i in range(len(self.index)):
        L.append(" & ".join([esc(self.index[i])] + [esc(v) for v in self.iloc[i].tolist()]) + r" \\")
    L += [r"\bottomrule", r"\end{tabular}", ""]
    s = "\n".join(L)
    if buf is not None:
        buf.write(s)
        return None
    return s


try:
    import jinja2  # noqa: F401
except ImportError:
    pd.DataFrame.to_latex = fake_latex


def table(data, metrics, methods, order="std"):
    """data[metric][method] = (mean, error, p)"""
    cols = [(m, s) for m in metrics for s in STATS]
    if order == "shuffle":
        rng.shuffle(cols)
    elif order == "bystat":
        cols = [(m, s) for s in ["p", "mean", "error"] for m in metrics]
    t = pd.DataFrame(index=pd.Index(methods, name="method"),
                     columns=pd.MultiIndex.from_tuples(cols, names=["metric", "stat"]), dtype=float)
    for m in metrics:
        for r in methods:
            for k, s in enumerate(STATS):
                t.loc[r, (m, s)] = data[m][r][k]
    if order == "dropped":  # a table from which another metric was dropped
        x = pd.concat([t, table({"zz": data[metrics[0]]}, ["zz"], methods)], axis=1)
        t = x.loc[:, [c for c in x.columns if c[0] != "zz"]]
    return t


def ebfloat():
    r = rng.random()
    if r < 0.08:
        return 0.0
    if r < 0.16:
        return float("inf")
    if r < 0.24:
        return float("nan")
    return abs(tricky_floats(rng, 1)[0])


def pfloat():
    r = rng.random()
    if r < 0.12:
        return float("nan")
    if r < 0.4:
        return rng.choice([0.0, 1.0, 1e-4, 1.0001e-4, 9.999e-5, 2e-4, 1e-9, 0.5, 0.25, 0.0625, 0.125, 0.05, 0.95, 0.99995, 0.1, 0.01, 0.001,
                           float(np.nextafter(1e-4, 0)), float(np.nextafter(1e-3, 1)), float(np.nextafter(1, 0)), 5e-324])
    if r < 0.6:
        return rng.randint(0, 10000) / 10000.0
    return rng.random() ** rng.choice([1, 3, 8])


def cell(eb=None, small=False):
    eb = ebfloat() if eb is None else eb
    r = rng.random()
    if math.isfinite(eb) and eb > 0 and r < 0.85:
        a = eb * rng.choice([0.0, 0.3, 1, 3, 12.345, 99.95, 1000, 1e5, 1e9]) * rng.uniform(0.5, 1.5)
        if rng.random() < 0.25:  # halfway between two displayed values
            d = 10.0 ** (math.floor(math.log10(eb)) - 1)
            a = (rng.randint(0, 3000) + 0.5) * d
        mu = a * rng.choice([1, 1, -1])
    else:
        mu = tricky_floats(rng, 1)[0] * rng.choice([1, 1, -1])
    if mu == 0:
        mu = 0.0
    if math.isfinite(eb) and eb > 0 and abs(mu) / eb > 1e20:
        mu = eb * 7.5
    return mu, eb, pfloat()


def rand_names(nm=None, nr=None, mr=4, big=False):
    """Metric and method names; now and then many of them."""
    if big:
        nm, nr = rng.choice([(1, 70), (12, 3), (7, 12), (3, 25), (2, 40)])
    return (rng.sample(NAMES_MANY if big else NAMES, nm or rng.randint(1, 3)),
            rng.sample(METHODS_MANY if big else METHODS, nr or rng.randint(1, mr)))


def rand_table(nonfinite_mean=False, nm=None, nr=None, order=None, big=False):
    metrics, methods = rand_names(nm, nr, big=big)
    data = {}
    for m in metrics:
        data[m] = {}
        base = ebfloat() if rng.random() < 0.5 else None
        for r in methods:
            c = cell(base if base is not None and math.isfinite(base) and rng.random() < 0.8 else None)
            if nonfinite_mean and not math.isfinite(c[1]) and rng.random() < 0.4:
                c = (float(rng.choice(["inf", "-inf", "nan"])), c[1], c[2])
            data[m][r] = c
    order = order or rng.choice(["std", "std", "shuffle", "bystat", "dropped"])
    return table(data, metrics, methods, order), data, metrics, methods


def wide_cell():
    """A cell far from unit scale."""
    k = rng.choice([-300, -200, -120, -60, -40, -30, -18, 0, 18, 30, 40, 60, 120, 200, 300])
    x = rng.uniform(1, 10) * 10.0 ** k
    r = rng.random()
    eb = float(rng.choice(["inf", "nan", "0"])) if r < 0.3 else x
    mu = x * rng.choice([0.001, 0.4, 1, 3.7, 1e4, -2.25, -1e3])
    return mu, eb, pfloat()


# ------------------------------------------------------------------ rounding
def limit_for(data, m):
    """A limit near an error bar of the column, or none."""
    if rng.random() < 0.4:
        return None
    es = [c[1] for c in data[m].values() if math.isfinite(c[1]) and c[1] > 0]
    if not es or rng.random() < 0.1:
        return rng.randint(-3, 4)
    return int(math.floor(math.log10(rng.choice(es)))) + rng.choice([-1, 0, 0, 1, 1, 2])


def ev_decimalize(t, data, metrics, methods, ed, pd_, dd, limits):
    kw = {}
    if ed != 2 or rng.random() < 0.5:
        kw["err_digits"] = ed
    if pd_ != 4 or rng.random() < 0.5:
        kw["pval_digits"] = pd_
    if dd != 5 or rng.random() < 0.5:
        kw["default_digits"] = dd
    if limits or rng.random() < 0.5:
        kw["EB_limit"] = dict(limits)
    st, o = call(sp.decimalize, t.copy(), **kw)
    labels = st == "ok" and list(o.columns) == list(t.columns) and list(o.index) == list(t.index) \
        and list(o.columns.names) == list(t.columns.names) and o.index.name == t.index.name
    cols = []
    for m in metrics:
        rows = []
        for r in methods:
            i = dict(zip(STATS, [X(v) for v in data[m][r]]))
            oo = {s: D(o.loc[r, (m, s)] if labels else None) for s in STATS}
            rows.append({"in": i, "out": oo})
        cols.append(dict(limit=limits.get(m, NOLIM), rows=rows))
    R.ev("decimalize", status=st, labels=bool(labels), err_digits=ed, pval_digits=pd_, default_digits=dd, cols=cols)


def do_c01():
    # replay of the model's grid, several cells per table
    chunk, i = [], 0
    grid = [(num(c["mu"]), num(c["eb"])) for c in CASES]
    rng.shuffle(grid)
    if not THOROUGH:
        grid = grid[:400]
    for i in range(0, len(grid), 8):
        g = grid[i:i + 8]
        data = {"a": {}, "b": {}}
        methods = ["r%d" % j for j in range((len(g) + 1) // 2)]
        g = g + g[:len(g) % 2]
        for j, r in enumerate(methods):
            data["a"][r] = g[2 * j] + (pfloat(),)
            data["b"][r] = g[2 * j + 1] + (pfloat(),)
        t = table(data, ["a", "b"], methods)
        for lim in ({}, {"a": 0}, {"a": -1, "b": 1}):
            ev_decimalize(t, data, ["a", "b"], methods, rng.randint(1, 3), rng.randint(1, 6), rng.randint(1, 5), lim)
    for _ in range(N(700, 8000)):
        t, data, metrics, methods = rand_table(nonfinite_mean=True, big=rng.random() < 0.012)
        limits = {}
        for m in metrics:
            l = limit_for(data, m)
            if l is not None:
                limits[m] = l
        if rng.random() < 0.2:
            limits["unused"] = 3
        ev_decimalize(t, data, metrics, methods, rng.choice([1, 2, 2, 2, 3, 4]), rng.choice([1, 2, 3, 4, 4, 4, 6, 10]), rng.choice([1, 2, 3, 5, 5, 8]), limits)
    # uncommon settings: many digits, extreme magnitudes
    for _ in range(N(120, 1500)):
        metrics, methods = rand_names()
        data = {m: {r: wide_cell() for r in methods} for m in metrics}
        ev_decimalize(table(data, metrics, methods), data, metrics, methods, rng.choice([1, 2, 5, 7, 12]), rng.choice([1, 4, 8, 12, 17]),
                      rng.choice([1, 5, 10, 15, 17, 20]), {m: rng.choice([-300, -40, -20, 0, 20, 40, 300]) for m in metrics if rng.random() < 0.4})


# ------------------------------------------------------------------ display
def dec_cell(ed=None, neg=True):
    """A random rounded cell built directly."""
    ed = ed or rng.randint(1, 3)
    e = rng.randint(-8, 6) if rng.random() < 0.93 else rng.randint(-22, 15)
    k = rng.random()
    err = Decimal((0, tuple(int(c) for c in str(rng.randint(10 ** (ed - 1), 10 ** ed - 1))), e))
    n = rng.choice([rng.randint(0, 9), rng.randint(0, 999), rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 9), rng.randint(10 ** 9, 10 ** 15)])
    mu = Decimal((rng.randint(0, 1) if neg and n else 0, tuple(int(c) for c in str(n)), e))
    if k < 0.15:
        err = Decimal("Infinity")
    elif k < 0.25:
        err = Decimal("NaN")
    elif k < 0.35:
        err = Decimal((0, (0,), rng.choice([0, e, -3])))
    return mu, err


def dec_p(pd_=4):
    if rng.random() < 0.15:
        return Decimal("NaN")
    q = Decimal(1).scaleb(-pd_)
    return (rng.choice([0, 1, 2, 3, rng.randint(0, 10 ** pd_), rng.randint(0, 10 ** pd_), 10 ** pd_, 10 ** pd_ // 2]) * q).quantize(q)


def subst_list(d):
    return [[k, v] for k, v in d.items()]


def do_estimate(n):
    for _ in range(n):
        mu, eb = dec_cell()
        r = rng.random()
        if r < 0.08:
            mu = Decimal(rng.choice(["NaN", "Infinity", "-Infinity"]))
        # a valid shift has mu defined to the dot; also some that are not
        base = -mu.as_tuple().exponent if mu.is_finite() else 0
        shift = base - rng.choice([0, 0, 1, 2, 3, 6, 9]) if rng.random() < 0.9 else base + rng.randint(1, 3)
        lo = hi = NOLIM
        kw = {}
        if rng.random() < 0.5:
            a = mu.adjusted() if mu.is_finite() and mu else 0
            if rng.random() < 0.7:
                hi = a + rng.choice([-1, 0, 0, 1, 2])
                kw["max_clip"] = Decimal((0, (1,), hi))
            if rng.random() < 0.7:
                lo = a + rng.choice([-1, 0, 0, 1, 2])
                kw["min_clip"] = Decimal((1, (1,), lo))
        if rng.random() < 0.1 and mu.is_finite():  # exactly at the limit
            hi = mu.adjusted() if mu else 0
            mu = Decimal(1).scaleb(hi).quantize(Decimal(1).scaleb(min(hi, mu.as_tuple().exponent)))
            kw["max_clip"] = Decimal((0, (1,), hi))
            if eb.is_finite() and eb:
                eb = Decimal((0, eb.as_tuple().digits, mu.as_tuple().exponent))
        fmt = rng.choice(FORMATS)
        if fmt or rng.random() < 0.5:
            kw["non_finite_fmt"] = dict(fmt)
        sh = np.int64(shift) if rng.random() < 0.3 else shift
        if shift == 0 and rng.random() < 0.5:
            st, o = call(sp.print_estimate, mu, eb, **kw)
        else:
            st, o = call(sp.print_estimate, mu, eb, sh, **kw)
        R.ev("estimate", mu=D(mu), eb=D(eb), shift=int(shift), lo=lo, hi=hi, subst=subst_list(fmt), status=st, out=str(o))


def dec_table(metrics, methods):
    """Table of Decimals built directly; also its cells."""
    t = pd.DataFrame(index=pd.Index(methods, name="method"),
                     columns=pd.MultiIndex.from_tuples([(m, s) for m in metrics for s in STATS], names=["metric", "stat"]), dtype=object)
    for m in metrics:
        pd_ = rng.randint(1, 6) if rng.random() < 0.9 else rng.randint(7, 15)
        ed = rng.randint(1, 3)
        big = rng.random() < 0.5
        for r in methods:
            mu, eb = dec_cell(ed)
            t.loc[r, (m, "mean")] = mu
            t.loc[r, (m, "error")] = eb
            t.loc[r, (m, "p")] = dec_p(pd_)
    return t


def limits_for(t, m, methods):
    lo, hi = None, None
    mus = [t.loc[r, (m, "mean")] for r in methods]
    adj = [x.adjusted() for x in mus if x.is_finite() and x]
    if any(x == Decimal("Infinity") for x in mus) or rng.random() < 0.4:
        hi = rng.choice(adj or [0]) + rng.choice([-1, 0, 0, 1, 1])
    if any(x == Decimal("-Infinity") for x in mus) or rng.random() < 0.3:
        lo = rng.choice(adj or [0]) + rng.choice([-1, 0, 0, 1, 1])
    return lo, hi


def do_format(n):
    for k in range(n):
        if k % 2:
            metrics, methods = rand_names(mr=5, big=rng.random() < 0.02)
            t = dec_table(metrics, methods)
            if rng.random() < 0.2:
                r, m = rng.choice(methods), rng.choice(metrics)
                t.loc[r, (m, "mean")] = Decimal(rng.choice(["Infinity", "-Infinity"]))
                t.loc[r, (m, "error")] = Decimal(rng.choice(["Infinity", "NaN"]))
            if rng.random() < 0.3:
                c = list(t.columns)
                rng.shuffle(c)
                t = t.loc[:, c]
        else:
            tf, data, metrics, methods = rand_table()
            st, t = call(sp.decimalize, tf, err_digits=rng.choice([1, 2, 3]))
            if st != "ok":
                continue  # C01's business
        lo, hi = {}, {}
        for m in metrics:
            a, b = limits_for(t, m, methods)
            if a is not None:
                lo[m] = a
            if b is not None:
                hi[m] = b
        mod = rng.choice([None, 1, 1, 2, 3, 3, 4, rng.randint(5, 12)])
        pad = rng.random() < 0.6
        fmt = rng.choice(FORMATS)
        kw = {}
        if mod is not None or rng.random() < 0.5:
            kw["shift_mod"] = mod
        if not pad or rng.random() < 0.5:
            kw["pad"] = pad
        if lo or rng.random() < 0.5:
            kw["crap_limit_min"] = lo
        if hi or rng.random() < 0.5:
            kw["crap_limit_max"] = hi
        if fmt or rng.random() < 0.5:
            kw["non_finite_fmt"] = fmt
        st, o = call(sp.format_table, t.copy(), **kw)
        labels, shifts = False, {}
        if st == "ok":
            s, shifts = o
            want = sorted((m, c) for m in metrics for c in ("estimate", "p"))
            labels = sorted(s.columns) == want and list(s.index) == list(t.index) and set(shifts) == set(metrics) \
                and all(isinstance(v, str) for v in s.values.ravel())
        cols = []
        for m in metrics:
            cells = [{x: D(t.loc[r, (m, x)]) for x in STATS} for r in methods]
            cols.append(dict(lo=lo.get(m, NOLIM), hi=hi.get(m, NOLIM), cells=cells, shift=int(shifts[m]) if labels else 0,
                             est=[s.loc[r, (m, "estimate")] for r in methods] if labels else ["" for _ in methods],
                             ptxt=[s.loc[r, (m, "p")] for r in methods] if labels else ["" for _ in methods]))
        R.ev("format", m=mod or 0, pad=pad, subst=subst_list(fmt), labels=bool(labels), status=st, cols=cols)


def do_c02():
    do_estimate(N(1500, 15000))
    do_format(N(500, 5000))


def do_c03():
    for pd_ in list(range(1, 7)) + [9, 12, 17]:
        q = Decimal(1).scaleb(-pd_)
        ks = range(0, 10 ** pd_ + 1) if pd_ <= 2 else sorted(set([0, 1, 2, 3, 9, 10, 11, 10 ** pd_ - 1, 10 ** pd_, 10 ** pd_ // 2] + [rng.randint(0, 10 ** pd_) for _ in range(60)]))
        for k in ks:
            p = (k * q).quantize(q)
            fmt = rng.choice(FORMATS)
            st, o = call(sp.print_pval, p, non_finite_fmt=dict(fmt)) if fmt else call(sp.print_pval, p)
            R.ev("pval", p=D(p), subst=subst_list(fmt), status=st, out=str(o))
    for fmt in FORMATS:
        st, o = call(sp.print_pval, Decimal("NaN"), non_finite_fmt=dict(fmt))
        R.ev("pval", p=D(Decimal("NaN")), subst=subst_list(fmt), status=st, out=str(o))
    do_format(N(500, 5000))
    # p-value floats straight to text
    for _ in range(N(150, 2000)):
        do_just(tex=False, plain=True)


def do_c04():
    # systematic two-row columns: exponents, digits and signs
    for e1 in range(-4, 4):
        for e2 in range(-3, 3):
            for (a, b) in [(1, 99), (7, -1234), (0, 5), (123456, 1), (-9, -10), (10, 100), (95, 1000000)]:
                for m in ((1, 3) if not THOROUGH else (1, 2, 3, 4)):
                    if not THOROUGH and rng.random() < 0.5:
                        continue
                    ms = [Decimal((int(a < 0), tuple(map(int, str(abs(a)))), e1)), Decimal((int(b < 0), tuple(map(int, str(abs(b)))), e2))]
                    es = [rng.choice([Decimal("NaN"), Decimal("Infinity"), Decimal((0, (1, 2), e1))]), Decimal((0, (rng.randint(1, 9),), e2))]
                    ev_shift(ms, es, m)
    for _ in range(N(500, 6000)):
        cs = [dec_cell() for _ in range(rng.randint(0, 5) if rng.random() < 0.96 else rng.randint(6, 40))]
        ev_shift([c[0] for c in cs], [c[1] for c in cs], rng.choice([1, 1, 2, 3, 3, 5, rng.randint(4, 15)]))
    do_format(N(500, 5000))


def ev_shift(ms, es, m):
    st, o = call(sp.find_shift, ms, es) if m == 1 and rng.random() < 0.5 else call(sp.find_shift, ms, es, shift_mod=m)
    R.ev("shift", cells=[dict(mean=D(a), error=D(b)) for a, b in zip(ms, es)], m=m, status=st, out=int(o) if st == "ok" else 0)


def do_c05():
    for _ in range(N(300, 3000)):
        metrics = rng.sample(NAMES, rng.randint(1, 4))
        shifts = {m: rng.choice([0, 0, rng.randint(-27, 27), rng.choice([-24, -21, -18, -15, -12, -9, -6, -3, -2, -1, 1, 2, 3, 6, 9, 12, 15, 18, 21, 24])]) for m in metrics}
        if rng.random() < 0.3:
            shifts = {m: np.int64(v) for m, v in shifts.items()}
        units = {m: rng.choice(["s", "m", "bits", "nats", "$"]) for m in metrics if rng.random() < 0.6}
        hs = [(m, c) for m in metrics for c in ("estimate", "p")]
        if rng.random() < 0.3:
            rng.shuffle(hs)
        ev_headers(hs, shifts, units, rng.random() < 0.6, rng.random() < 0.5)
    for k in range(-27, 28):  # every shift, with a unit
        for tex in (False, True):
            for up in (False, True):
                ev_headers([("time_taken", "estimate"), ("time_taken", "p"), ("AUC", "estimate")], {"time_taken": k, "AUC": -k}, {"time_taken": "s"}, up, tex)
    for _ in range(N(150, 1500)):
        do_export(rng.random() < 0.5)
    for _ in range(N(150, 1500)):
        do_just(rng.random() < 0.5)
    for _ in range(N(5, 40)):
        for tex in (False, True):
            do_export(tex, big=True)
            do_just(tex, big=True)


def ev_headers(hs, shifts, units, up, tex):
    kw = {}
    if not up or rng.random() < 0.5:
        kw["use_prefix"] = up
    if tex or rng.random() < 0.5:
        kw["use_tex"] = tex
    st, o = call(sp.adjust_headers, hs, shifts, units, **kw)
    R.ev("headers", hs=[dict(metric=m, stat=s, shift=int(shifts[m]), unit=units.get(m, "@none")) for m, s in hs], use_prefix=up, tex=tex,
         status=st, out=[str(x) for x in o] if st == "ok" else [])


def parse_text(s, tex):
    """Header line, body lines (blanks collapsed) and LaTeX column format."""
    lines = [re.sub(r"\s+", " ", x).strip() for x in s.split("\n")]
    align = ""
    if tex:
        m = re.search(r"\\begin\{tabular\}\{(.*)\}\s*$", s, re.M)
        align = m.group(1) if m else "none"
        lines = [x for x in lines if " & " in x or x.startswith("& ")]
    else:
        lines = [x for x in lines if x]
    return (lines[0] if lines else ""), lines[1:], align


def clean(st, o, tex):
    if st != "ok" or not isinstance(o, str):
        return "", [], ""
    return parse_text(o, tex)


def do_export(tex, big=False):
    metrics, methods = rand_names(big=big)
    t = dec_table(metrics, methods)
    st, o = call(sp.format_table, t, shift_mod=rng.choice([1, 2, 3]), pad=rng.random() < 0.5, non_finite_fmt={"nan": "--"})
    if st != "ok":
        return
    tbl, shifts = o
    units = {m: rng.choice(["s", "m", "bits"]) for m in metrics if rng.random() < 0.5}
    up = rng.random() < 0.6
    f = sp.table_to_latex if tex else sp.table_to_string
    kw = {} if up and rng.random() < 0.5 else dict(use_prefix=up)
    st, s = call(f, tbl, shifts, units, **kw)
    header, body, align = clean(st, s, tex)
    order = [m for m, c in tbl.columns if c == "estimate"]
    R.ev("export", tex=tex, use_prefix=up, methods=methods, header=header, body=body, align=align, status=st,
         cols=[dict(name=m, unit=units.get(m, "@none"), shift=int(shifts[m]), est=[tbl.loc[r, (m, "estimate")] for r in methods],
                    ptxt=[tbl.loc[r, (m, "p")] for r in methods]) for m in order])


def do_just(tex, plain=False, big=False):
    if plain:
        t, data, metrics, methods = rand_table(nm=1, nr=1)
        m, r = metrics[0], methods[0]
        data[m][r] = (0.5, 0.01, data[m][r][2])
        t = table(data, metrics, methods)
    else:
        t, data, metrics, methods = rand_table(big=big)
    lim, lo, hi = {}, {}, {}
    for m in metrics:
        l = limit_for(data, m) if not plain else None
        if l is not None:
            lim[m] = l
        adj = [int(math.floor(math.log10(abs(c[0])))) for c in data[m].values() if c[0] and math.isfinite(c[0])] or [0]
        if not plain and rng.random() < 0.3:
            hi[m] = rng.choice(adj) + rng.choice([0, 1, 1, 2])
        if not plain and rng.random() < 0.3:
            lo[m] = rng.choice(adj) + rng.choice([0, 1, 1, 2])
    mod = rng.choice([None, 1, 3, 3])
    fmt = rng.choice([f for f in FORMATS if "" not in f.values()])
    units = {m: rng.choice(["s", "m", "bits"]) for m in metrics if rng.random() < 0.5}
    up = rng.random() < 0.6
    kw = {}
    for k, v, dflt in [("unit_dict", units, {}), ("shift_mod", mod, None), ("crap_limit_max", hi, {}), ("crap_limit_min", lo, {}), ("EB_limit", lim, {}),
                       ("non_finite_fmt", fmt, {}), ("use_tex", tex, False), ("use_prefix", up, True)]:
        if v != dflt or rng.random() < 0.3:
            kw[k] = v
    st, s = call(sp.just_format_it, t, **kw)
    header, body, align = clean(st, s, tex)
    w, order = {}, sorted(metrics)  # witnesses for the shift and the order of the columns
    s1, d = call(sp.decimalize, t, EB_limit=lim)
    if s1 == "ok":
        s1, o = call(sp.format_table, d, shift_mod=mod, crap_limit_max=hi, crap_limit_min=lo)
        if s1 == "ok":
            w, order = o[1], [m for m, c in o[0].columns if c == "estimate"]
            if sorted(order) != sorted(metrics):
                order = sorted(metrics)
    R.ev("just", m=mod or 0, subst=subst_list(fmt), tex=tex, use_prefix=up, methods=methods, header=header, body=body, align=align, status=st,
         cols=[dict(name=m, unit=units.get(m, "@none"), limit=lim.get(m, NOLIM), shift=int(w.get(m, 0)), lo=lo.get(m, NOLIM), hi=hi.get(m, NOLIM),
                    rows=[dict(zip(STATS, [X(v) for v in data[m][r]])) for r in methods]) for m in order])


def do_c06():
    for _ in range(N(500, 5000)):
        ss = []
        for _ in range(rng.randint(1, 6) if rng.random() < 0.95 else rng.randint(10, 60)):
            mu, eb = dec_cell()
            sh = -mu.as_tuple().exponent - rng.choice([0, 0, 1, 2, 5])
            st, o = call(sp.print_estimate, mu, eb, sh)
            s = o if st == "ok" else "1.5(3)"
            if rng.random() < 0.2:
                s = rng.choice([">1,000", "<-10", "nan", "inf", "-inf", ">0.001", "0", "--", "-1,234.5(67)", "12(3)", "7"])
            ss.append(s)
        pad = rng.choice([" ", " ", "~", "0"])
        arg = ss if rng.random() < 0.6 else (tuple(ss) if rng.random() < 0.5 else pd.Series(ss, index=list(range(len(ss), 0, -1))))
        st, o = call(sp.pad_num_str, arg, pad) if pad != " " or rng.random() < 0.3 else call(sp.pad_num_str, arg)
        R.ev("pad", ss=ss, pad=pad, status=st, out=[str(x) for x in o] if st == "ok" else [])
    do_format(N(400, 4000))


def do_c30():
    for _ in range(N(450, 4500)):
        do_just(rng.random() < 0.4)
    for _ in range(N(40, 200)):
        do_just(rng.random() < 0.5, plain=True)
    for _ in range(N(12, 80)):
        for tex in (False, True):
            do_just(tex, big=True)


dict(C01=do_c01, C02=do_c02, C03=do_c03, C04=do_c04, C05=do_c05, C06=do_c06, C30=do_c30)[prop]()
R.close()
