"""P15: cross-validated predictions are out-of-fold, combined as selected, and line up with the labels."""
import copy, zlib
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError
from core import *
from gen import *


class Memo(BaseEstimator, ClassifierMixin):
    """Remembers the examples it was trained with; its answers are a function of that memory and of the example."""

    def fit(self, X, y):
        self.ids_ = [int(v) for v in np.asarray(X)[:, 0]]
        self.y_ = list(np.asarray(y))
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        if not hasattr(self, "ids_"):
            raise NotFittedError("not fitted")
        out = []
        for v in np.asarray(X)[:, 0]:
            r = np.random.RandomState(zlib.crc32(repr((sorted(self.ids_), int(v))).encode()))
            out.append(r.multinomial(64, r.dirichlet(np.ones(len(self.classes_)))) / 64.)
        return np.array(out).reshape(-1, len(self.classes_))

    def predict(self, X):
        p = self.predict_proba(X)
        return self.classes_[p.argmax(axis=1)]


def scheme(case, d):
    from sklearn import model_selection as ms
    s, k, r, sd = case["cv"], case["folds"], case["reps"], case["seed"]
    rs = {"none": None, "int": sd, "rs": np.random.RandomState(sd)}[case["rnd"]]
    if s == "list" or s == "iter":
        n = len(d["y"])
        out = []
        for f in d["fold"]:
            f = np.array(f)
            for j in range(1, f.max() + 1):
                out.append((np.where(f != j)[0], np.where(f == j)[0]))
        return out if s == "list" else iter(out)
    if s == "default":
        return None
    return {"int": lambda: k, "none": lambda: None, "kf": lambda: ms.KFold(k), "skf": lambda: ms.StratifiedKFold(k),
            "kfs": lambda: ms.KFold(k, shuffle=True, random_state=rs), "skfs": lambda: ms.StratifiedKFold(k, shuffle=True, random_state=rs),
            "rkf": lambda: ms.RepeatedKFold(n_splits=k, n_repeats=r, random_state=rs), "rskf": lambda: ms.RepeatedStratifiedKFold(n_splits=k, n_repeats=r, random_state=rs),
            "loo": lambda: ms.LeaveOneOut(), "gkf": lambda: ms.GroupKFold(k), "logo": lambda: ms.LeaveOneGroupOut()}[s]()


def build(d, labels, case):
    n = len(d["y"])
    X = np.column_stack([np.arange(1, n + 1), np.random.RandomState(n).randn(n)])
    if case["nan"]:
        X[::3, 1] = np.nan
    return X, labels[np.array(d["y"]) - 1]


def num(labels, out):
    labels = list(labels)
    out = np.asarray(out)
    return [labels.index(v) + 1 if v in labels else 0 for v in out.tolist()] if out.ndim == 1 else [-1]


def run(case):
    from quantificationlib.estimators.cross_validation import CV_estimator
    from quantificationlib.baselines.ac import AC, PAC
    from quantificationlib.multiclass.df import HDy, DFy
    from quantificationlib.multiclass.energy import EDy, CvMy
    from quantificationlib.multiclass.friedman import FriedmanME
    from sklearn.model_selection import check_cv
    np.random.seed(case["seed"])
    labels = make_labels(case["names"], 4)
    base = Memo()
    d = case["datas"][0]
    kw = dict(averaged_predictions=case["avg"], voting=case["voting"], n_jobs=case["jobs"])
    if case["cv"] != "default":
        kw["cv"] = scheme(case, d)
    if case["cv"] in ("gkf", "logo"):
        kw["groups"] = np.array(d["groups"])
    det = case["cv"] in ("list", "iter", "default", "int", "none", "kf", "skf", "loo", "gkf", "logo") or case["rnd"] == "int"
    e = CV_estimator(base, **kw)
    evs, cur = [], None
    for op in case["hist"]:
        if op.startswith("fit"):
            d = case["datas"][int(op[3:] or 0)]
            X, y = build(d, labels, case)
            cls = np.unique(y)
            nc = len(cls)
            yi = num(cls, y)
            _, exc = call(e.fit, X, y)
            ev = dict(ev="fit", new=not evs, cv=case["cv"], rnd=case["rnd"], folds=case["folds"], reps=case["reps"], N=len(y), y=yi, tr=[], splits=[], exc=exc)
            ev["try"] = []
            ev["template"] = not hasattr(base, "ids_")
            if not exc:
                ev["tr"] = [m.ids_ for m in e.estimators_]
                ev["try"] = [num(cls, np.array(m.y_)) for m in e.estimators_]
                if det:
                    c = check_cv(scheme(case, d), y, classifier=True)
                    ev["splits"] = [[int(i) + 1 for i in t] for _, t in c.split(X, y, kw.get("groups"))]
            evs.append(ev)
            if exc:
                return evs
            continue
        if op == "mutate":
            X[:] = X[::-1].copy()
            continue
        what = "proba" if op[-1] == "p" else "labels"
        kind = op[:-1]
        known = [num(cls, m.classes_) for m in e.estimators_]

        def table(Z):
            return [M(m.predict_proba(Z)) for m in e.estimators_]

        ev = dict(ev="predict", new=False, kind=kind, what=what, avg=case["avg"], voting=case["voting"], nc=nc, istrain=False, out=[], exc="")
        if kind == "quant":
            X0, y0 = build(d, labels, case)
            q = {"proba": [PAC, HDy, EDy, DFy, FriedmanME, CvMy], "labels": [AC]}[what]
            q = q[case["seed"] % len(q)](estimator_train=e, estimator_test=e)
            _, exc = call(q.fit, X0, y0)
            if not exc:
                _, exc = call(q.predict, X0)
            ev.update(ev="quant", istrain=True, ids=[int(v) for v in X0[:, 0]], P=table(X0), known=known, exc=exc, yext=[])
            if not exc:
                ev["yext"] = num(cls, q.y_ext_)
                ev["out"] = M(q.predictions_train_) if what == "proba" else num(cls, q.predictions_train_)
            evs.append(ev)
            continue
        X0, y0 = build(d, labels, case)
        if kind == "train":
            Z = X0.copy()
        elif kind == "same":
            Z = X
        elif kind == "other":
            Z = X0[:max(1, len(X0) // 2)].copy()
            Z[:, 0] += 100
        elif kind == "subset":
            Z = X0[1:].copy()
        elif kind == "reordered":
            Z = X0[::-1].copy()
        elif kind == "changed":
            Z = X0.copy()
            Z[0, 0] += 50
        ev["istrain"] = bool(np.array_equal(Z, X0, equal_nan=True))
        ev["ids"] = [int(v) for v in Z[:, 0]]
        ev["P"], ev["known"] = table(Z), known
        out, exc = call(e.predict_proba if what == "proba" else e.predict, Z)
        ev["exc"] = exc
        if not exc:
            ev["out"] = M(out) if what == "proba" else num(cls, out)
        evs.append(ev)
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    inv = ["Partition", "OutOfFold", "OneRepEach", "LinesUp", "Export"]
    for n, k, r, dep, take in ((4, 2, 1, 3, 70), (4, 3, 1, 3, 120), (3, 2, 2, 4, 120), (3, 3, 2, 3, 100), (4, 2, 2, chk.n(3, 4), 150)):
        beh = chk.mc("MCCrossVal", dict(N=str(n), K=str(k), Reps=str(r), Depth=str(dep)), inv, emit=True)
        beh.sort(key=str)
        for j in sorted(rng.choice(len(beh), min(len(beh), chk.n(take, take * 6)), replace=False)):
            b = beh[j]
            y = [int(v) for v in rng.randint(1, 4, n)]
            y[0], y[1] = 1, 2
            ops = [o if o == "fit" else (["train", "same"][rng.randint(2)] if o == "train" else ["other", "subset", "reordered", "changed"][rng.randint(4)]) + "pl"[rng.randint(2)]
                   for o in b["hist"]] + ["train" + "pl"[rng.randint(2)]]
            cases.append(dict(cv="list" if j % 3 else "iter", folds=k, reps=r, seed=int(rng.randint(10 ** 6)), rnd="int", names=LABELS[j % len(LABELS)],
                              datas=[dict(y=y, fold=b["folds"])], hist=ops, avg=bool(rng.rand() < .5), voting=["hard", "soft"][rng.randint(2)], jobs=None, nan=bool(rng.rand() < .1)))
    for i in range(chk.n(420, 3000)):
        cv = ["default", "int", "none", "kf", "skf", "kfs", "skfs", "rkf", "rskf", "loo", "gkf", "logo", "kfs", "skfs", "rkf", "rskf"][i % 16]
        datas = []
        k = int(rng.randint(2, 5))
        for _ in range(2):
            n = int(rng.randint(8, 17))
            nc = int(rng.randint(2, 5))
            # enough examples per class for the stratified schemes; any for the others
            if cv in ("skf", "skfs", "rskf", "int") :
                n = max(n, nc * k)
                y = np.concatenate([np.repeat(np.arange(1, nc + 1), k), rng.randint(1, nc + 1, n - nc * k)])
            elif cv in ("default", "none"):
                n = max(n, nc * 5)
                y = np.concatenate([np.repeat(np.arange(1, nc + 1), 5), rng.randint(1, nc + 1, n - nc * 5)])
            else:
                y = np.concatenate([np.arange(1, nc + 1), rng.randint(1, nc + 1, n - nc)])
            y = [int(v) for v in rng.permutation(y)]
            g = np.concatenate([np.arange(k + 1), rng.randint(0, k + 1, n - k - 1)])
            datas.append(dict(y=y, groups=[int(v) for v in rng.permutation(g)]))
        hist = ["fit"]
        for _ in range(chk.n(4, 6)):
            hist.append(["train", "same", "train", "other", "subset", "reordered", "changed"][rng.randint(7)] + "pl"[rng.randint(2)])
        nan = bool(rng.rand() < .1)
        if rng.rand() < .3 and not nan:
            hist.insert(int(rng.randint(1, len(hist))), "quant" + "pl"[rng.randint(2)])
        if rng.rand() < .15:
            hist += ["mutate", "samep", "trainp"]
        elif rng.rand() < .3 and cv not in ("gkf", "logo"):
            hist += ["fit1", "trainp", "otherp"]
        cases.append(dict(cv=cv, folds=k, reps=int(rng.randint(1, 4)), seed=int(rng.randint(10 ** 6)), rnd=["none", "int", "rs"][rng.randint(3)], names=LABELS[i % len(LABELS)],
                          datas=datas, hist=hist, avg=bool(rng.rand() < .5), voting=["hard", "soft"][rng.randint(2)], jobs=None, nan=nan))
    chk.validate("TraceCrossVal", chk.record(run, cases))
    return chk.finish(assumptions=["the training set of a model is what the memorising estimator was given; left-out examples are its complement",
                                   "soft votes that differ by at most 1e-9 count as ties",
                                   "schemes whose test folds are not partitions (ShuffleSplit, LeavePOut) are outside the property"])
