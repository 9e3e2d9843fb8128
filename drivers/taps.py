"""Curve functions that record their calls."""
from common import *

F = dict(roc=pc.roc_curve, pr=pc.recall_precision_curve, prg=pc.prg_curve)


def flip(y_true, y_score, sample_weight=None):
    """A user's curve: miss rate by false positive rate, linear and decreasing."""
    (x, yy, kind), t = pc.roc_curve(y_true, y_score, sample_weight)
    return (x, 1.0 - yy, kind), t


def drop(y_true, y_score, sample_weight=None):
    """A user's curve: a decreasing step function with negative values."""
    (x, yy, _), t = pc.roc_curve(y_true, y_score, sample_weight)
    return (x, 0.5 - 2.0 * yy, "previous"), t


USER = dict(F, flip=flip, drop=drop)


class Tap:
    """A curve function that remembers what it was asked."""

    def __init__(self, name):
        self.f, self.name, self.calls = USER[name], name, []

    def __call__(self, y_true, y_score, sample_weight=None):
        o = self.f(y_true, y_score, sample_weight) if sample_weight is not None else self.f(y_true, y_score)
        self.calls.append((np.array(y_true), np.array(y_score), None if sample_weight is None else np.array(sample_weight), o[0]))
        return o

    def rows(self, s, encode=True):
        """(weights, curve) of every weighted evaluation on scores s."""
        r = []
        for _, sc, w, (x, yy, kind) in self.calls:
            if w is not None and sc.shape == s.shape and np.array_equal(sc, s):
                for k in range(len(w)):
                    r.append((w[k], dict(kind=str(kind), x=XS(x[k]), y=XS(yy[k])) if encode else None))
        return r

    def mats(self, s):
        return [w for _, sc, w, _ in self.calls if w is not None and sc.shape == s.shape and np.array_equal(sc, s)]

    def labels_ok(self, y):
        return all(np.array_equal(np.asarray(c[0]).astype(int), np.asarray(y).astype(int)) for c in self.calls)
