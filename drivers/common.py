"""Shared by the drivers: encoding of values for the trace, and recording."""
import json, math, os, random, sys
try:
    import numpy as np
    import pandas as pd
    import mlpaper
    assert os.path.realpath(mlpaper.__file__).startswith(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/"), mlpaper.__file__
    import mlpaper.boot_util as bu
    import mlpaper.classification as btc
    import mlpaper.constants as const
    import mlpaper.data_splitter as ds
    import mlpaper.mlpaper as bt
    import mlpaper.perf_curves as pc
    import mlpaper.regression as btr
    import mlpaper.sciprint as sp
    import mlpaper.util as util
except Exception:
    import traceback
    traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(7)
from fractions import Fraction
from decimal import Decimal

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
rng = random.Random(SEED)
np.random.seed(SEED % (2 ** 32))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def N(quick, thorough):
    return thorough if THOROUGH else quick


def X(x):
    """A number as the specification's string form."""
    if isinstance(x, str):
        return x
    if isinstance(x, Fraction):
        return "%d/%d" % (x.numerator, x.denominator)
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return "%d/%d" % (n, d)


def XS(a):
    return [X(v) for v in np.asarray(a).ravel().tolist()]


def XM(a):
    return [[X(v) for v in r] for r in np.asarray(a).tolist()]


def num(s):
    """Inverse of X for dyadic rationals (cases written by TLC)."""
    if s in ("nan", "inf", "-inf"):
        return float(s)
    return float(Fraction(s))


def D(d):
    """A Decimal as a record: kind, exact value, exponent, sign."""
    if not isinstance(d, Decimal):
        return dict(k="other", v="nan", e=0, neg=False)
    if d.is_nan():
        return dict(k="nan", v="nan", e=0, neg=False)
    if d.is_infinite():
        return dict(k="inf", v="inf" if d > 0 else "-inf", e=0, neg=d < 0)
    t = d.as_tuple()
    return dict(k="fin", v=X(Fraction(d)), e=int(t.exponent), neg=bool(t.sign))


class Rec:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def ev(self, op, **kw):
        self.n += 1
        self.f.write(json.dumps(dict(id=self.n, op=op, **kw)) + "\n")

    def close(self):
        self.f.close()


def call(f, *a, **k):
    """('ok', value) or ('exc', exception type name)."""
    try:
        return "ok", f(*a, **k)
    except Exception as e:  # the specification decides whether this is allowed
        return "exc", type(e).__name__


def cases(paths):
    for p in paths:
        for line in open(p):
            line = line.strip()
            if line:
                yield json.loads(line)


def tricky_floats(r, n, lo=-12, hi=12):
    """Floats of many magnitudes, with exact decimals, near-powers and dyadics."""
    out = []
    for _ in range(n):
        t = r.random()
        m = 10.0 ** r.randint(lo, hi)
        if t < 0.35:
            x = r.uniform(0.1, 1.0) * m
        elif t < 0.5:
            x = float("%d.%de%d" % (r.randint(0, 9), r.randint(0, 99), r.randint(lo, hi)))
        elif t < 0.6:
            x = m * r.choice([1, 0.999999, 0.995, 0.9949, 0.95, 9.96, 9.5, 99.5, 1 - 2.0 ** -50])
        elif t < 0.8:
            x = r.randint(1, 4096) / 2.0 ** r.randint(0, 14)
        elif t < 0.9:
            x = float(r.randint(0, 12000))
        else:
            x = np.nextafter(float("1e%d" % r.randint(lo, hi)), r.choice([-1e300, 1e300]))
        out.append(float(x))
    return out
