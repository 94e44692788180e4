"""Every quantifier of the library under one interface.

A configuration is a dict with "kind" and settings; make(cfg, est_train, est_test) builds the quantifier, role(cfg) tells what it
needs.  Roles: "crisp"/"prob" classifier-based (needs: whether training predictions are needed), "X" classifier-free."""
import numpy as np
from copy import deepcopy
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError
from sklearn.multiclass import OneVsRestClassifier

# kind: (role, needs training predictions, binary only)
KINDS = {
    "CC": ("crisp", False, False), "PCC": ("prob", False, False), "AC": ("crisp", True, False), "PAC": ("prob", True, False),
    "EM": ("prob", True, False), "DFy": ("prob", True, False), "HDy": ("prob", True, False), "MMy": ("prob", True, False),
    "EDy": ("prob", True, False), "CvMy": ("prob", True, False), "FriedmanME": ("prob", True, False),
    "DeBias": ("prob", True, True), "SORDy": ("prob", True, True), "QUANTy": ("prob", True, True),
    "ACOrdinal": ("crisp", True, False), "PDFOrdinaly": ("prob", True, False), "OQT": ("tree", False, False),
    "REGy": ("prob", True, False),
    "DFX": ("X", False, False), "HDX": ("X", False, False), "EDX": ("X", False, False), "PWKQ": ("X", False, False), "REGX": ("X", False, False),
    "OVR": ("ovr", True, False), "FH": ("fh", True, False), "OVRX": ("X", False, False), "FHX": ("X", False, False),
    "EoQ": ("prob", True, False), "EoQc": ("crisp", True, False), "EoQX": ("X", False, False),
}
SAMPLING = ("REGX", "REGy", "EoQ", "EoQX", "EoQc")


def role(cfg):
    if cfg.get("method") == "winner_node":
        return ("winner", True, False)
    return KINDS[cfg["kind"]]


class Cls(BaseEstimator, ClassifierMixin):
    """Probabilistic nearest-mean classifier that counts how often it is trained and remembers with what."""

    def __init__(self, gain=0.125):
        self.gain = gain

    def fit(self, X, y):
        X, y = np.asarray(X, dtype=float), np.asarray(y)
        self.classes_ = np.unique(y)
        self.means_ = np.array([X[y == c].mean(axis=0) for c in self.classes_])
        self.fits_ = getattr(self, "fits_", 0) + 1
        self.seen_ = (X.copy(), y.copy())
        return self

    def predict_proba(self, X):
        if not hasattr(self, "means_"):
            raise NotFittedError("unfitted")
        d = ((np.asarray(X, dtype=float)[:, None, :] - self.means_[None]) ** 2).sum(axis=2)
        w = 1 / (self.gain + d)
        return w / w.sum(axis=1, keepdims=True)

    def predict(self, X):
        best = np.argmax(self.predict_proba(X), axis=1)
        return self.classes_[best]


class CountOVR(OneVsRestClassifier):
    def fit(self, X, y, **k):
        super().fit(X, y, **k)
        self.fits_ = getattr(self, "fits_", 0) + 1
        self.seen_ = (np.array(X, dtype=float), np.array(y))
        return self


def count_fh():
    from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier

    class CountFH(FrankAndHallClassifier):
        def fit(self, X, y, **k):
            super().fit(X, y, **k)
            self.fits_ = getattr(self, "fits_", 0) + 1
            self.seen_ = (np.array(X, dtype=float), np.array(y))
            return self
    return CountFH


def count_winner(gain):
    from quantificationlib.estimators.ordinal_ddag import DDAGClassifier

    class CountDDAG(DDAGClassifier):
        def fit(self, X, y):
            super().fit(X, y)
            self.fits_ = getattr(self, "fits_", 0) + 1
            self.seen_ = (np.array(X, dtype=float), np.array(y))
            return self
    return CountDDAG(Cls(gain), predict_method="winner_node")


def estimator(rl, gain=0.125):
    """an untrained estimator fit for a role"""
    if rl == "winner":
        return count_winner(gain)
    if rl == "ovr":
        return CountOVR(Cls(gain))
    if rl == "fh":
        return count_fh()(Cls(gain))
    return Cls(gain)


def func(name):
    from quantificationlib.metrics.multiclass import l1, l2, hd, topsoe
    from p07 import plain_l1, plain_l2
    return dict(fl1=l1, fl2=l2, fhd=hd, ftopsoe=topsoe, pl1=plain_l1, pl2=plain_l2).get(name, name)


def metric(name):
    from sklearn.metrics.pairwise import manhattan_distances, euclidean_distances
    return dict(manhattan=manhattan_distances, euclidean=euclidean_distances)[name]


def make(cfg, est_train=None, est_test=None):
    k = cfg["kind"]
    a = dict(estimator_train=est_train, estimator_test=est_test)
    g = cfg.get
    if k in ("CC", "PCC"):
        from quantificationlib.baselines.cc import CC, PCC
        return (CC if k == "CC" else PCC)(estimator_test=est_test)
    if k in ("AC", "PAC"):
        from quantificationlib.baselines.ac import AC, PAC
        return (AC if k == "AC" else PAC)(distance=g("distance", "HD" if k == "AC" else "L2"), **a)
    if k == "EM":
        from quantificationlib.multiclass.em import EM
        return EM(epsilon=g("epsilon", 1e-4), max_iter=g("max_iter", 1000), **a)
    if k in ("DFy", "HDy", "MMy", "DFX", "HDX"):
        from quantificationlib.multiclass import df
        c = getattr(df, k)
        kw = dict(n_bins=g("nb", 8), bin_strategy=g("strat", "equal_width"), tol=g("tol", 1e-5))
        if k in ("DFy", "DFX"):
            kw.update(distribution_function="CDF" if g("cdf") else "PDF", distance=func(g("distance", "HD")))
        return c(**kw, **({} if k[-1] == "X" else a))
    if k in ("EDy", "CvMy", "EDX"):
        from quantificationlib.multiclass import energy
        c = getattr(energy, k)
        kw = {} if g("metric") is None else dict(distance=metric(g("metric")))
        return c(**kw, **({} if k == "EDX" else a))
    if k == "FriedmanME":
        from quantificationlib.multiclass.friedman import FriedmanME
        return FriedmanME(distance=func(g("distance", "L2")), **a)
    if k == "DeBias":
        from quantificationlib.binary.debias import DeBias
        return DeBias(**a)
    if k == "SORDy":
        from quantificationlib.binary.emd import SORDy
        return SORDy(**a)
    if k == "QUANTy":
        from quantificationlib.binary.quantiles import QUANTy
        return QUANTy(n_quantiles=g("nq", 8), **({} if g("distance") is None else dict(distance=func(g("distance")))), **a)
    if k == "ACOrdinal":
        from quantificationlib.ordinal.ac_ordinal import ACOrdinal
        return ACOrdinal(**a)
    if k == "PDFOrdinaly":
        from quantificationlib.ordinal.pdf import PDFOrdinaly
        return PDFOrdinaly(n_bins=g("nb", 8), distance=g("distance", "L2"), method=g("method", "full_probabilistic"), **a)
    if k == "OQT":
        from quantificationlib.ordinal.trees import OrdinalQuantificationTree
        return OrdinalQuantificationTree(estimator_test=est_test)
    if k in ("REGX", "REGy"):
        from quantificationlib.multiclass import regression
        gen = bags_of(cfg)
        reg = None
        if g("reg") == "linear":
            from sklearn.linear_model import LinearRegression
            reg = LinearRegression()
        elif g("reg") == "tree":
            from sklearn.tree import DecisionTreeRegressor
            reg = DecisionTreeRegressor(random_state=0)
        kw = dict(bag_generator=gen, n_bins=g("nb", 8), bin_strategy=g("strat", "equal_width"), regression_estimator=reg)
        return regression.REGX(**kw) if k == "REGX" else regression.REGy(**kw, **a)
    if k == "PWKQ":
        from quantificationlib.multiclass.knn import PWKQuantifier
        return PWKQuantifier(n_neighbors=g("k", 10), p=g("p", 2))
    if k in ("OVR", "OVRX"):
        from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
        return OneVsRestQuantifier(make(g("base")), **({} if k == "OVRX" else a))
    if k in ("FH", "FHX"):
        from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
        return FrankAndHallQuantifier(make(g("base")), **({} if k == "FHX" else a))
    if k in ("EoQ", "EoQX", "EoQc"):
        from quantificationlib.ensembles.eoq import EoQ
        kw = {} if k == "EoQX" else dict(ensemble_estimator_train=est_train, ensemble_estimator_test=est_test)
        return EoQ(base_quantifier=make(g("base")), n_quantifiers=g("members", 5), combination_strategy=g("combine", "mean"), n_bins=g("nb", 8), bin_strategy=g("strat", "equal_width"),
                   distribution_function="CDF" if g("cdf") else "PDF", distance_bags=g("far", "euclidean"), percentage_of_selected_models=g("share", .5), bag_generator=g("generator"), **kw)
    raise ValueError(k)


def settings(full=False):
    """the settings every kind is exercised with (binary-only ones marked)"""
    out = [dict(kind=k) for k in ("CC", "PCC", "EM", "HDy", "MMy", "HDX", "EDy", "CvMy", "EDX", "FriedmanME", "DeBias", "SORDy", "QUANTy", "ACOrdinal", "OQT")]
    out += [dict(kind=k, distance=d) for k in ("AC", "PAC", "FriedmanME") for d in ("HD", "L2", "L1")]
    for k in ("DFy", "DFX"):
        for cdf in (False, True):
            for d in ("HD", "L2", "L1"):
                out.append(dict(kind=k, distance=d, cdf=cdf))
            for d in ("fl1", "fl2", "fhd", "ftopsoe"):
                out.append(dict(kind=k, distance=d, cdf=cdf, binary=True))
    out += [dict(kind=k, distance=d, binary=True) for k in ("FriedmanME", "DFy", "DFX") for d in ("pl1", "pl2")] + [dict(kind="FriedmanME", distance="fhd", binary=True), dict(kind="QUANTy", distance="pl1")]
    for k in ("HDy", "MMy", "HDX", "DFX", "DFy"):
        for nb, strat in ((2, "equal_count"), (5, "normal"), (12, "equal_width"), (4, "binormal")):
            out.append(dict(kind=k, nb=nb, strat=strat, **(dict(binary=True) if strat == "binormal" else {})))
    out += [dict(kind=k, metric="euclidean") for k in ("EDy", "CvMy")] + [dict(kind="EDX", metric="manhattan")]
    out += [dict(kind="PDFOrdinaly", distance=d, method=m, nb=nb) for d in ("HD", "L2", "L1", "EMD") for m in ("full_probabilistic", "winner_node") for nb in ((8, 3) if m[0] == "f" else (5,))]
    out += [dict(kind="PWKQ", k=k, p=p) for k, p in ((1, 2), (3, 1), (5, 2))]
    out += [dict(kind="QUANTy", nq=3), dict(kind="QUANTy", distance="fl1", nq=5)]
    bases = [dict(kind=k) for k in ("CC", "PCC", "AC", "PAC", "EM", "HDy", "DeBias", "SORDy", "EDy")]
    out += [dict(kind=k, base=b) for k in ("OVR", "FH") for b in bases]
    out += [dict(kind=k, base=b) for k in ("OVRX", "FHX") for b in (dict(kind="HDX"), dict(kind="EDX"), dict(kind="DFX", distance="L2", nb=4))]
    out += [dict(kind=k, reg=r, gen=g, strat=s) for k in ("REGX", "REGy") for r, g, s in (("linear", 12, "equal_width"), ("tree", 20, "normal"), (None, 30, "equal_count"))]
    for c in ("mean", "median", "prevalence_similarity", "distribution_similarity"):
        out += [dict(kind="EoQ", base=b, combine=c) for b in (dict(kind="PAC"), dict(kind="HDy"), dict(kind="PCC"))]
        out += [dict(kind="EoQX", base=b, combine=c) for b in (dict(kind="HDX"), dict(kind="EDX"))]
        if c != "distribution_similarity":
            out += [dict(kind="EoQc", base=b, combine=c) for b in (dict(kind="AC"), dict(kind="CC"))]
    seen = []
    for s in out:
        if role(s)[2]:
            s["binary"] = True
        if s["kind"] == "PDFOrdinaly":
            s["multi"] = True
        if s not in seen:
            seen.append(s)
    return seen


def bags_of(cfg):
    from quantificationlib.bag_generator import PriorShift_BagGenerator
    return None if cfg.get("gen") is None else PriorShift_BagGenerator(n_bags=cfg["gen"], random_state=cfg.get("seed", 1))


def fit(q, cfg, X, y, preds=None):
    """fit with or without given predictions; a generator keeps its bags, so every fit is given a new one"""
    if cfg.get("gen") is not None:
        q.bag_generator = bags_of(cfg)
    if role(cfg)[0] == "X" or cfg["kind"] == "EoQX" or preds is None:
        return q.fit(X, y)
    return q.fit(X, y, predictions_train=preds)


def predict(q, cfg, X, preds=None):
    if role(cfg)[0] == "X" or preds is None:
        return q.predict(X)
    return q.predict(X, predictions_test=preds)


def ordered(rng, n, sizes, d=2, spread=6, near=3, den=8):
    """examples of n classes around class centres, in multiples of 1/den"""
    y = rng.permutation(np.repeat(np.arange(1, n + 1), sizes))
    cen = np.array([[near * (c + 1) * (1 if j % 2 == 0 else -1) * (c % 2 + 1) for j in range(d)] for c in range(n)])
    X = (cen[y - 1] + rng.randint(-spread, spread + 1, (len(y), d))) / float(den)
    return X, y
