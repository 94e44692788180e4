"""Generators and scripted stand-ins shared by the drivers."""
import numpy as np
from fractions import Fraction
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError

LABELS = ["int0", "neg", "str", "gap", "npstr", "int8", "int1", "float", "uint8", "object", "bool"]
STRS = ["a", "b", "ba", "c", "d", "e", "ea", "f", "fa", "g", "h", "i"]


def make_labels(kind, n):
    """n sorted class labels of a certain type."""
    if kind == "int0":
        return np.arange(n)
    if kind == "int1":
        return np.arange(1, n + 1)
    if kind == "neg":
        return np.array([-1, 1, 5, 9, 12, 40, 41, 43, 50, 51, 60, 99][:n]) if n > 2 else np.array([-1, 1])
    if kind == "gap":
        return np.array([2, 30, 31, 100, 1000, 5000, 5001, 6000, 6001, 7000, 7001, 10000][:n])
    if kind in ("int8", "uint8"):
        return np.array([3, 4, 9, 11, 20, 21, 22, 30, 31, 40, 41, 100][:n], dtype=kind)
    if kind == "str":
        return np.array(STRS[:n])
    if kind == "object":
        return np.array(STRS[:n], dtype=object)
    if kind == "npstr":
        return np.array(["Neg", "Pos", "Rest", "Some", "Tiny", "Vast", "Whole", "X", "Xa", "Y", "Ya", "Z"][:n], dtype="U8")
    if kind == "float":
        return np.arange(n) * 2. - 1
    if kind == "bool":
        return np.array([False, True]) if n == 2 else np.arange(n)
    raise ValueError(kind)


def dyadic_rows(rng, m, k, den, sub=None):
    """m posterior rows over k classes in multiples of 1/den (den a power of two), as rational strings;
    classes outside sub get nothing."""
    sub = list(range(k)) if sub is None else list(sub)
    out = []
    for _ in range(m):
        c = rng.multinomial(den, rng.dirichlet(np.ones(len(sub)) * rng.choice([0.3, 1, 3])))
        r = [Fraction(0)] * k
        for j, x in zip(sub, c):
            r[j] = Fraction(int(x), int(den))
        out.append([str(x) for x in r])
    return out


def fl(rows):
    """rows of rational strings as a float matrix (correctly rounded)"""
    return np.array([[float(Fraction(s)) for s in r] for r in rows], dtype=float)


class Table(BaseEstimator, ClassifierMixin):
    """An already trained estimator that looks the answer for an example up by its first feature."""

    def __init__(self, labels=None, probs=None, preds=None):
        self.labels = labels
        self.probs = probs
        self.preds = preds

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        return self

    def _ix(self, X):
        return np.asarray(X)[:, 0].astype(int)

    def predict_proba(self, X):
        return np.array(self.probs)[self._ix(X)]

    def predict(self, X):
        if self.preds is not None:
            return np.array(self.preds)[self._ix(X)]
        return np.asarray(self.labels)[np.array(self.probs)[self._ix(X)].argmax(axis=1)]
