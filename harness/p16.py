"""P16: each member of an ensemble is built from its own bag."""
import numpy as np
from core import *
from gen import *
from p15 import Memo, num


LABELS = [v for v in LABELS if v != "float"]        # predictions of members are told apart from posteriors by their type


def cells(T, labels):
    """predictions as nested lists of rational strings, or of class numbers"""
    T = np.asarray(T)
    if T.dtype.kind == "f":
        f = lambda a: [f(b) for b in a] if isinstance(a, list) else R(a)
        return f(T.tolist())
    L = list(labels)
    f = lambda a: [f(b) for b in a] if isinstance(a, list) else (L.index(a) + 1 if a in L else 0)
    return f(T.tolist())


def given(rng, shape, crisp, m, nq, cls):
    """random predictions for m positions"""
    k = len(cls)
    if crisp:
        return cls[rng.randint(0, k, (m, nq) if shape == "each" else m)]
    one = lambda: rng.multinomial(16, rng.dirichlet(np.ones(k))) / 16.
    return np.array([[one() for _ in range(nq)] if shape == "each" else one() for _ in range(m)])


def run(case):
    from quantificationlib.ensembles.eoq import EoQ
    from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
    from quantificationlib.estimators.cross_validation import CV_estimator
    from quantificationlib.bag_generator import PriorShift_BagGenerator, CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator
    from sklearn.model_selection import KFold, RepeatedKFold
    from stubs import RecX, RecY
    rng = np.random.RandomState(case["seed"])
    y1 = np.array(case["y"])
    cls = make_labels(case["names"], y1.max())
    y = cls[y1 - 1]
    n = len(y)
    X = np.column_stack([np.arange(1, n + 1), rng.randn(n)])
    Z = np.column_stack([np.arange(101, 101 + case["m"]), rng.randn(case["m"])])
    nq, shape, crisp, r = case["nq"], case["shape"], case["crisp"], case["r"]
    bags = [np.array(b).T - 1 for b in case["bags"]]     # example x bag
    evs = []
    base = Memo()
    cv = (lambda: CV_estimator(Memo(), cv=RepeatedKFold(n_splits=2, n_repeats=r, random_state=case["seed"]), averaged_predictions=False)) if case["cv"] else Memo

    def clf_event(e, bag, tmpl, ask=True):
        """ensemble e of classifiers, fitted with the given bags"""
        inner = [([int(v) for v in m.X_train_[:, 0]], num(cls, m.y_train_)) if case["cv"] else (m.ids_, num(cls, np.array(m.y_))) for m in e.estimators_]
        ev = dict(ev="clf", new=not evs, y=case["y"], bags=[[int(v) + 1 for v in b] for b in bag.T], nc=len(cls), tr=[t[0] for t in inner], trl=[t[1] for t in inner],
                  template=not (hasattr(tmpl, "ids_") or getattr(tmpl, "X_train_", None) is not None), asked=ask, P=[], L=[], known=[], proba=[], labels=[], exc="")
        if ask:
            out, exc = call(lambda: (e.predict_proba(Z), e.predict(Z)))
            ev.update(P=[M(m.predict_proba(Z)) for m in e.estimators_], L=[num(cls, m.predict(Z)) for m in e.estimators_], known=[num(cls, m.classes_) for m in e.estimators_], exc=exc)
            if not exc:
                ev["proba"] = cells(out[0], cls)
                ev["labels"] = cells(out[1], cls)
        return ev

    if case["kind"] == "clf":
        e = EnsembleOfClassifiers(base_estimator=cv(), n_jobs=case["jobs"])
        for b in bags:
            _, exc = call(e.fit, X, y, b)
            if exc:
                return evs + [dict(ev="clf", new=not evs, exc=exc)]
            evs.append(clf_event(e, b, e.base_estimator))
        return evs

    tmpl = RecX() if case["kind"] == "X" else RecY(probabilistic=not crisp)
    k = {}
    est = test = None
    if case["kind"] == "Y" and case["source"] == "own":
        est = EnsembleOfClassifiers(base_estimator=cv(), n_jobs=case["jobs"]) if shape == "each" else cv()
        test = est
        if case["separate"]:
            test = EnsembleOfClassifiers(base_estimator=Memo()) if case["tshape"] == "each" else Memo()
        k = dict(ensemble_estimator_train=est, ensemble_estimator_test=test)
    if case["gen"]:
        g = [PriorShift_BagGenerator, CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator][case["gen"] - 1]
        k["bag_generator"] = g(bag_size=case["size"], random_state=case["seed"]) if case["gen"] < 3 else g(bag_size=case["size"], random_state=case["seed"], method="Uniform")
    q = EoQ(base_quantifier=tmpl, n_quantifiers=nq, n_bins=4, **k)
    for b in bags:
        kw = {}
        T = Tt = None
        if not case["gen"]:
            kw.update(indexes=b, prevalences=np.array([[np.mean(y[b[:, i]] == c) for i in range(b.shape[1])] for c in cls]))
        if case["kind"] == "Y" and case["source"] == "given":
            T = given(rng, shape, crisp, n * r, nq, cls)
            if crisp and shape == "one" and rng.rand() < .3:
                kw["predictions_train"] = T.reshape(-1, 1)
            else:
                kw["predictions_train"] = T
            Tt = given(rng, case["tshape"], crisp, case["m"], nq, cls)
        _, exc = call(q.fit, X, y, **kw)
        ev = dict(ev="lesson", new=not evs, kind=case["kind"], source=case["source"], crisp=crisp, y=case["y"], shape=shape, tshape=case["tshape"], r=r, exc=exc)
        if exc:
            return evs + [ev]
        ans = np.ones(len(cls)) / len(cls)
        for m in q.quantifiers_:
            m.answer = ans
        if case["kind"] == "X":
            _, exc = call(q.predict, Z)
        elif case["source"] == "given":
            _, exc = call(q.predict, None, predictions_test=Tt)
        else:
            _, exc = call(q.predict, Z)
        used = q.indexes_[:, :nq]
        ev.update(bags=[[int(v) + 1 for v in c] for c in used.T], exc=exc, template=not tmpl.fits and not tmpl.asked)
        if case["kind"] == "X":
            ev.update(shape="one", tshape="one", r=1, T=list(range(1, n + 1)), test=[int(v) for v in Z[:, 0]],
                      got=[[[num(cls, m.fits[-1][1])[j], int(m.fits[-1][0][j, 0])] for j in range(len(m.fits[-1][1]))] for m in q.quantifiers_],
                      used=[[int(v) for v in m.asked[-1][:, 0]] if m.asked else [] for m in q.quantifiers_])
        else:
            if case["source"] == "own":
                def ask(e, W):
                    f = (lambda m: m.predict(W)) if crisp else (lambda m: m.predict_proba(W))
                    if isinstance(e, EnsembleOfClassifiers):
                        rows = [f(m) for m in e.estimators_]
                        if not crisp:
                            full = []
                            for m, t in zip(e.estimators_, rows):
                                z = np.zeros((len(t), len(cls)))
                                z[:, [list(cls).index(c) for c in m.classes_]] = t
                                full.append(z)
                            rows = full
                        return np.stack(rows, axis=1)
                    return f(e)
                T, Tt = ask(est, X), ask(test, Z)
                if shape == "each" and b is bags[0]:
                    evs.append(clf_event(est, q.indexes_, est.base_estimator, ask=False))
                    ev["new"] = False
                if test is not est and case["tshape"] == "each" and b is bags[0]:
                    keep = case["cv"]
                    case["cv"] = False
                    evs.append(clf_event(test, q.indexes_, test.base_estimator, ask=False))
                    case["cv"] = keep
                    ev["new"] = False
                ev["r"] = len(T) // n
            flat = lambda a: a.reshape(-1) if a.ndim == 2 and a.shape[1] == 1 and a.dtype.kind != "f" else a
            ev.update(T=cells(T, cls), test=cells(Tt, cls),
                      got=[[[c, p] for c, p in zip(num(cls, m.fits[-1][1]), cells(flat(m.fits[-1][0]), cls))] for m in q.quantifiers_],
                      used=[cells(flat(m.asked[-1]), cls) if m.asked else [] for m in q.quantifiers_])
        evs.append(ev)
        if exc:
            return evs
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []

    def add(**k):
        d = dict(kind="Y", seed=int(rng.randint(10 ** 6)), names=LABELS[len(cases) % len(LABELS)], m=int(rng.randint(1, 6)), crisp=bool(rng.rand() < .4), cv=False, gen=0, size=None, jobs=None, separate=False, r=1, source="own")
        d.update(k)
        d.setdefault("tshape", d["shape"])
        cases.append(d)

    for n, size, mem, reps, dep, take in ((3, 2, 2, 1, 1, 100), (3, 2, 2, 2, 1, 100), (2, 1, 3, 2, 1, 32), (2, 2, 2, 2, 2, 200), (3, 3, 1, 1, 1, 50)):
        beh = chk.mc("MCEnsemble", dict(N=str(n), Size=str(size), Members=str(mem), Reps=str(reps), Depth=str(dep)), ["OwnBag", "OwnModel", "Export"],
                     properties=["Untouched"], emit=True, spec="Spec")
        beh.sort(key=str)
        for j in sorted(rng.choice(len(beh), min(len(beh), chk.n(take, take * 5)), replace=False)):
            b = beh[j]
            y = [1, 2, int(rng.randint(1, 3))][:n]
            kind = "Y" if rng.rand() < .7 else ["X", "clf"][rng.randint(2)]
            if b["source"] == "own" or kind != "Y":
                add(kind=kind, y=y, bags=b["bags"], nq=mem, shape=b["shape"], source="own")
            else:
                add(kind=kind, y=y, bags=b["bags"], nq=mem, shape=b["shape"], source="given", r=reps)
    for i in range(chk.n(350, 2500)):
        big = i % 60 in (9, 22)                  # now and then more examples, members and classes
        nc = int(rng.randint(2, 5)) if not big else int(rng.choice([2, 6]))
        n = int(rng.randint(8, 16)) if not big else int(rng.randint(40, 130))
        y = [int(v) for v in rng.permutation(np.concatenate([np.arange(1, nc + 1), rng.randint(1, nc + 1, n - nc)]))]
        nq = int(rng.randint(1, 6)) if not big else int(rng.randint(8, 13))
        size = int(rng.randint(4, 16)) if not big else int(rng.randint(30, 100))
        nb = nq + (int(rng.randint(0, 3)) if rng.rand() < .3 else 0)
        kind = ["X", "clf", "Y", "Y", "Y", "Y"][i % 6]
        shape = ["one", "each"][rng.randint(2)]
        source = ["own", "given"][rng.randint(2)]
        cv = bool(rng.rand() < .3)
        if kind == "clf":
            nb = nq
        bags = [[[int(v) for v in rng.randint(1, n + 1, size)] for _ in range(nb)] for _ in range(1 + int(rng.rand() < .3))]
        separate = source == "own" and rng.rand() < .3
        if kind == "Y" and source == "own" and shape == "each" and nb > nq:
            bags = [[b for b in bb[:nq]] for bb in bags]
        k = dict(kind=kind, y=y, bags=bags, nq=nq, shape=shape, source=source, cv=cv, separate=bool(separate), r=int(rng.randint(1, 4)) if (cv or source == "given") else 1,
                 gen=int(rng.randint(1, 4)) if kind != "clf" and rng.rand() < .25 else 0, size=int(rng.choice([5, 9, n])), jobs=2 if i % 40 == 1 else None)
        if separate or source == "given" and rng.rand() < .2:
            k["tshape"] = ["one", "each"][rng.randint(2)]
        add(**k)
    chk.validate("TraceEnsemble", chk.record(run, cases))
    return chk.finish(assumptions=["what a member learns is compared as a multiset of (true class, prediction) pairs",
                                   "given labels per model are recognised as such when they are not floating-point numbers"])
