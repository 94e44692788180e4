"""P33: what cannot be quantified is refused, and refusals leave no trace."""
import numpy as np
from core import *
from gen import LABELS, make_labels
import zoo
from p30 import BINARY, CRISP
import p31
from p31 import MOD, MODELS, FREE, WRAP, ORDINAL



class Strict(p31.Tilted):
    def fit(self, X, y):
        X, y = check(X, y)
        self.n_features_in_ = X.shape[1]
        return super().fit(X, y)

    def predict_proba(self, X):
        w = super().predict_proba(np.zeros((1, self.means_.shape[1]))) if hasattr(self, "means_") else super().predict_proba(X)
        X = np.asarray(X, dtype=float)
        if X.ndim != 2 or X.shape[0] == 0 or X.shape[1] != self.n_features_in_ or not np.isfinite(X).all():
            raise ValueError("not a bag")
        return super().predict_proba(X)


def check(X, y):
    X, y = np.asarray(X, dtype=float), np.asarray(y)
    if X.ndim != 2 or len(X) != len(y) or len(X) == 0 or not np.isfinite(X).all():
        raise ValueError("not a data set")
    return X, y


def make(kind, given=()):
    o = p31.make(kind, list(given))
    e = Strict(.125)
    if kind == "OneVsRestQuantifier":
        from sklearn.multiclass import OneVsRestClassifier
        e = OneVsRestClassifier(e)
    if kind == "FrankAndHallQuantifier":
        from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier
        e = FrankAndHallClassifier(e)
    if p31.places(kind):
        o.set_params(**{p: e for p in p31.places(kind)})
    return o


def spoil(rng, X, y, how):
    X = X.copy()
    if how in ("nan", "inf"):
        X[rng.randint(len(X)), rng.randint(X.shape[1])] = np.nan if how == "nan" else np.inf * rng.choice([-1, 1])
    if how == "features":
        X = X[:, :1] if rng.randint(2) else np.column_stack([X, X[:, 0]])
    if how == "empty":
        X, y = X[:0], y[:0] if y is not None else None
    if how == "short":
        y = y[:-1]
    return X, y


def run(case):
    kind, n = case["kind"], case["n"]
    rng = np.random.RandomState(case["seed"])
    data, bags = p31.world(case)
    start = [[p, p31.settings(kind, n)[p][k]] for p, k in case["start"]]
    evs, o, known, trained, seen, last = [], make(kind, start), None, False, set(), None
    hist = []
    for h in case["hist"]:          # some wrong questions are asked once more
        hist += [h, [h[0], "again"]] if h[0] == "ask" and h[1] not in ("1", "2") and rng.randint(2) else [h]
    for op, what in hist:
        again = what == "again"
        what = ev["what"] if again else what
        ev = dict(ev=op, what=what, kind=kind, new=not evs, out=[])
        if op == "fit":
            X, y = data[int(what) - 1] if what in ("1", "2") else spoil(rng, *data[rng.randint(2)], what)
            if kind == "EnsembleOfClassifiers" and what not in ("1", "2"):
                continue
            again = known is not None and (what in ("1", "2") or bool(rng.randint(2)))
            if again:       # whatever trained its estimator before: it is given another one
                p31.fresh_bags(o, kind)
                new = make(kind, start)
                if p31.places(kind):
                    o.set_params(**{p: getattr(new, p) for p in p31.places(kind)})
            _, ev["exc"] = call(p31.fit, o, kind, X.copy(), y.copy(), limit=100)
            ev["trained"] = trained and not again
            trained = True
            known = what if not ev["exc"] else "?"
        else:
            Z = bags[int(what) - 1] if what in ("1", "2") else last if again else spoil(rng, bags[rng.randint(2)], None, what)[0]
            last = Z
            out, ev["exc"] = call(p31.answer, o, kind, Z.copy(), limit=100)
            if kind == "FriedmanME" and ev["exc"] == "ValueError" and what in ("1", "2") and known in ("1", "2"):
                out, ev["exc"] = ["flat"], ""       # the search refuses distances that are the same everywhere: so must the reference
            ev["out"] = out if not ev["exc"] else []
            if what in ("1", "2") and known in ("1", "2"):
                seen.add((known, what))
        evs.append(ev)
    for d, b in sorted(seen):
        def ref():
            q = make(kind, start)
            p31.fit(q, kind, *data[int(d) - 1])
            return p31.answer(q, kind, bags[int(b) - 1])
        out, exc = call(ref, limit=100)
        if kind == "FriedmanME" and exc == "ValueError":
            out, exc = ["flat"], ""
        evs.append(dict(ev="reference", what=b, data=d, kind=kind, new=False, out=out if not exc else [], exc=exc))
    return evs


def misuses():
    """name -> function(rng, data of two classes, data of three classes) that uses the library in a way it cannot work"""
    from sklearn.linear_model import LogisticRegression
    from sklearn.multiclass import OneVsRestClassifier
    from quantificationlib import bag_generator as bg, search
    from quantificationlib.metrics import multiclass as mm, binary as mb, ordinal as mo
    from quantificationlib.ensembles.eoq import EoQ
    from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
    from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
    from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier, FrankAndHallMonotoneClassifier, FrankAndHallTreeClassifier
    from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
    from quantificationlib.multiclass.df import HDX, HDy
    from quantificationlib.baselines.ac import PAC
    out = {}

    def whole(kind, given=(), n=3, **change):
        def use(rng, worlds):
            data, bags = worlds[n]
            q = make(kind, given)
            q.set_params(**change)
            p31.fit(q, kind, *data[0])
            return p31.answer(q, kind, bags[0])
        return use
    for k in ("DFX", "DFy", "HDX", "HDy", "MMy", "REGX", "REGy", "EoQ"):
        out["bin-strategy:" + k] = whole(k, bin_strategy="nonsense")
        out["binormal-classes:" + k] = whole(k, bin_strategy="binormal") if k != "EoQ" else whole(k, [("combination_strategy", "distribution_similarity")], bin_strategy="binormal")
    for k in ("DFX", "DFy", "FriedmanME", "EDX", "EDy", "CvMy"):
        out["distance:" + k] = whole(k, distance="nonsense", n=3)
    out["distance:QUANTy"] = whole("QUANTy", n=2, distance="nonsense")
    out["distance:PDFOrdinaly"] = whole("PDFOrdinaly", distance="nonsense")
    out["method:PDFOrdinaly"] = whole("PDFOrdinaly", method="nonsense")
    out["strategy:EoQ"] = whole("EoQ", combination_strategy="nonsense")
    for k in BINARY:
        out["classes:" + k] = whole(k)
    out["classes:PDFOrdinaly"] = whole("PDFOrdinaly", n=2)
    for k, q in (("EoQ", lambda b: EoQ(base_quantifier=b, n_quantifiers=3)), ("OneVsRestQuantifier", lambda b: OneVsRestQuantifier(b)), ("FrankAndHallQuantifier", lambda b: FrankAndHallQuantifier(b))):
        out["base:" + k] = lambda rng, w, q=q: q(LogisticRegression()).fit(*w[3][0][0])
    out["estimator:OneVsRestQuantifier"] = lambda rng, w: OneVsRestQuantifier(PAC(), estimator_train=Strict(), estimator_test=Strict()).fit(*w[3][0][0])
    out["estimator:FrankAndHallQuantifier"] = lambda rng, w: FrankAndHallQuantifier(PAC(), estimator_train=OneVsRestClassifier(Strict()), estimator_test=OneVsRestClassifier(Strict())).fit(*w[3][0][0])
    for k, c in (("FrankAndHallClassifier", FrankAndHallClassifier), ("FrankAndHallMonotoneClassifier", FrankAndHallMonotoneClassifier), ("FrankAndHallTreeClassifier", FrankAndHallTreeClassifier), ("EnsembleOfClassifiers", EnsembleOfClassifiers)):
        out["no-estimator:" + k] = lambda rng, w, c=c, k=k: p31.fit(c(), k, *w[3][0][0])
    for k in sorted(MOD):
        if k in MODELS or k in FREE:
            continue
        n = 2 if k in BINARY else 3
        names = p31.places(k)
        out["no-estimator:" + k] = lambda rng, w, k=k, n=n, names=names: p31.answer(whole_fit(k, w[n], {p: None for p in names}), k, w[n][1][0])
        if k not in ("CC", "PCC", "OrdinalQuantificationTree", "OneVsRestQuantifier", "FrankAndHallQuantifier"):
            def few(rng, w, k=k, n=n):
                q, (X, y) = make(k), w[n][0][0]
                p = np.full((len(y) - 1 - rng.randint(2), n), 1. / n) if k not in CRISP else y[:-1 - rng.randint(2)]
                p31.fresh_bags(q, k)
                q.set_params(**{p: None for p in p31.places(k)})
                q.fit(None, y, predictions_train=p)
                return q.predict(None, predictions_test=p)
            out["few-predictions:" + k] = few
    for k in ("PriorShift_BagGenerator", "PriorAndCovariateShift_BagGenerator"):
        g = getattr(bg, k)
        for what, kw in (("method", dict(method="nonsense")), ("size", dict(bag_size=0)), ("random-state", dict(random_state="x")), ("minimum-negative", dict(min_prevalence=-.1)), ("minimum-above-one", dict(min_prevalence=1.5)),
                         ("minima", dict(min_prevalence=[.6, .6, .1])), ("minimum", dict(min_prevalence=.4))):
            out["bags-%s:%s" % (what, k)] = lambda rng, w, g=g, kw=kw: g(n_bags=3, **kw).generate_bags(*w[3][0][0])
        out["bags-alphas:" + k] = lambda rng, w, g=g: g(n_bags=3, method="Dirichlet", alphas=[1., 2.]).generate_bags(*w[3][0][0])
    out["bags-random-state:CovariateShift_BagGenerator"] = lambda rng, w: bg.CovariateShift_BagGenerator(n_bags=3, random_state="x").generate_bags(*w[3][0][0])
    for k in ("l1", "l2", "hd", "kld", "jensenshannon", "topsoe", "mean_absolute_error", "bray_curtis", "l1_norm", "dpp", "probsymm", "mean_squared_error", "brier_multi"):
        if hasattr(mm, k) and k != "brier_multi":
            out["lengths:" + k] = lambda rng, w, f=getattr(mm, k): f(np.array([.2, .3, .5]), np.array([.5, .5]))
    return out


def whole_fit(kind, world, change):
    q = make(kind)
    q.set_params(**change)
    return p31.fit(q, kind, *world[0][0]) or q


def run_misuse(case):
    worlds = {n: p31.world(dict(kind="", n=n, seed=case["seed"], names=case["names"])) for n in (2, 3)}
    rng, evs = np.random.RandomState(case["seed"]), []
    for name in case["what"]:
        _, exc = call(misuses()[name], rng, worlds, limit=100)
        evs.append(dict(ev="wrong", what=name, kind="", new=True, out=[], exc=exc))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    c = dict(Data="{1, 2}", Bags="{1, 2}", Careful="TRUE")
    inv = ["Earned", "NothingInvented"]
    chk.mc("MCRefusal", dict(c, Depth="4", Careful="FALSE"), ["Earned"], refuted="Earned")
    beh = chk.mc("MCRefusal", dict(c, Depth=str(chk.n(5, 6))), inv + ["Export"], emit=True)
    beh.sort(key=str)
    cases = []
    for kind in sorted(MOD):
        slow = kind in ("EoQ", "REGX", "REGy")
        for r in range(chk.n(6 if slow else 20, 30 if slow else 120)):
            n = 2 if kind in BINARY or kind not in ORDINAL and r % 2 else 3
            v = p31.settings(kind, n)
            h = [[op, [what, "inf"][rng.randint(2)] if what == "nan" else [what, "empty"][rng.randint(2)] if what == "short" else [what, "features"][rng.randint(2)] if (op, what) == ("ask", "empty") else what]
                 for op, what in beh[int(rng.randint(len(beh)))]]
            cases.append(dict(kind=kind, n=n, names=LABELS[int(rng.randint(len(LABELS)))], seed=int(rng.randint(10 ** 6)), hist=h,
                              start=[[p, int(rng.randint(len(v[p])))] for p in sorted(v) if p != "gain" and rng.rand() < .3]))
    chk.validate("TraceRefusal", chk.record(run, cases))
    names = sorted(misuses())
    wrong = [dict(seed=int(rng.randint(10 ** 6)), names=LABELS[int(rng.randint(len(LABELS)))], what=[w]) for w in names for _ in range(chk.n(3, 30))]
    chk.validate("TraceRefusal", chk.record(run_misuse, wrong))
    return chk.finish(assumptions=["classifiers handed to the library refuse what cannot be classified, as those of scikit-learn do"])
