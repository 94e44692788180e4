"""Replays of binary answers through the decompositions: one-vs-rest, Frank-and-Hall, trees and decision DAGs."""
import numpy as np
from copy import deepcopy
from core import *
from gen import *
from p15 import num
from stubs import RecX, RecE, Oracle

EXC = dict(est=[], fits=[], asked=[], rows=[], trows=[], out=[])


def features(ids, classes, T):
    """example number, class number, and the answers of the binary models"""
    return np.column_stack([np.asarray(ids, float), np.asarray(classes, float), fl(T)])


def rows_of(lab, content):
    content = np.asarray(content)
    lab = [R(v) for v in np.asarray(lab).tolist()]
    if content.ndim == 1:
        content = content.reshape(-1, 1)
    return [[l] + [R(v) for v in r] for l, r in zip(lab, content.tolist())]


def spread(rng, n, m):
    """m answers of n problems, in multiples of 1/16"""
    return [[str(Fraction(int(v), 16)) for v in rng.randint(0, 17, n)] for _ in range(m)]


def odd(T):
    """answers that no crisp decision ties at"""
    return [[str(Fraction(2 * min(int(Fraction(v) * 16), 15) + 1, 32)) for v in r] for r in T]


def compose(case):
    """decomposition quantifiers with scripted members"""
    from sklearn.multiclass import OneVsRestClassifier
    from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
    from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
    from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier, FrankAndHallMonotoneClassifier
    rng = np.random.RandomState(case["seed"])
    scheme, source, crisp = case["scheme"], case["source"], case["crisp"]
    evs = []
    q = tmpl = None
    for est in case["est"]:                        # one fit and one or two answers per entry
        n = len(est[0]) + (scheme == "fh")
        np_ = n if scheme == "ovr" else n - 1
        cls = make_labels(case["names"], n)
        m = n + int(rng.randint(0, 5) if case["seed"] % 20 else 60)
        y1 = rng.permutation(np.concatenate([np.arange(1, n + 1), rng.randint(1, n + 1, m - n)]))
        y = cls[y1 - 1]
        mt = int(rng.randint(1, 5) if case["seed"] % 25 else 70)
        r = case["r"] if source == "given" else 1
        T, Tt = spread(rng, np_, m * r), spread(rng, np_, mt)
        if crisp:
            T, Tt = odd(T), odd(Tt)
        if scheme == "ovr" and source == "own" and n == 2:      # one model for both classes
            T, Tt = [[[str(1 - Fraction(t[1])), t[1]] for t in A] for A in (T, Tt)]
        X = features(np.arange(1, m + 1), y1, T[:m])
        Z = features(np.arange(101, 101 + mt), np.zeros(mt), Tt)
        if source == "own":
            apart = case["separate"]
            X = np.hstack((X, fl(spread(rng, np_, m))))
            Z = np.hstack((features(np.arange(101, 101 + mt), np.zeros(mt), spread(rng, np_, mt)), fl(Tt))) if apart else np.hstack((Z, fl(spread(rng, np_, mt))))
        kw = {}
        if q is None or case["fresh"]:
            tmpl = RecX() if source == "X" else RecE(probabilistic=not crisp)
            if source == "own":
                C = OneVsRestClassifier if scheme == "ovr" else [FrankAndHallClassifier, FrankAndHallMonotoneClassifier][case["seed"] % 2]
                k = n
                o = Oracle(scheme, k)
                if case["seed"] % 4 == 0:
                    from sklearn.pipeline import Pipeline
                    o = Pipeline([("o", o)])
                train = C(o)
                t = deepcopy(o)
                bare(t).off = np_                          # reads its answers elsewhere
                kw = dict(estimator_train=train, estimator_test=C(t) if case["separate"] else train)
            q = OneVsRestQuantifier(tmpl, **kw) if scheme == "ovr" else FrankAndHallQuantifier(tmpl, **kw)
        a = {} if source != "given" else dict(predictions_train=fl(T))
        _, exc = call(q.fit, X, y, **a)
        base = dict(ev="compose", scheme=scheme, source=source, crisp=crisp, n=n, y=[int(v) for v in y1])
        if exc:
            return evs + [dict(EXC, new=not evs, exc=exc, template=True, **base)]
        for p in est:
            for mem, v in zip(q.quantifiers_, p):
                if hasattr(mem, "answer"):
                    v = float(Fraction(v))
                    mem.answer, mem.asked = [1 - v, v], []
            out, exc = call(q.predict, Z, **({} if source != "given" else dict(predictions_test=fl(Tt))))
            mem = [m for m in q.quantifiers_ if hasattr(m, "answer")]
            ev = dict(base, new=not evs, exc=exc, est=p, out=V(out), template=not tmpl.fits and not tmpl.asked)
            ids = lambda A: [[R(v)] for v in np.asarray(A)[:, 0].tolist()]
            if source == "X":
                ev.update(rows=[R(v) for v in X[:, 0].tolist()], trows=[R(v) for v in Z[:, 0].tolist()],
                          fits=[rows_of(m.fits[-1][1], m.fits[-1][0][:, 0]) for m in mem], asked=[ids(m.asked[-1]) if m.asked else [] for m in mem])
            else:
                un = lambda A: [[R(v) for v in r] for r in (A.reshape(-1, 1) if A.ndim == 1 else A).tolist()]
                ev.update(rows=T, trows=Tt, fits=[rows_of(m.fits[-1][1], m.fits[-1][0]) for m in mem], asked=[un(m.asked[-1]) if m.asked else [] for m in mem])
            evs.append(ev)
            if exc:
                return evs
    return evs


def bare(e):
    return e if isinstance(e, Oracle) else e.steps[-1][1]


def rows(case):
    """ordinal classifiers whose binary models answer what the features say"""
    from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier, FrankAndHallMonotoneClassifier, FrankAndHallTreeClassifier
    from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
    from quantificationlib.ordinal.trees import OrdinalQuantificationTree
    from quantificationlib.metrics.binary import binary_kld, absolute_error, bias
    rng = np.random.RandomState(case["seed"])
    rule = case["rule"]
    n = case["n"]
    cls = make_labels(case["names"], n)
    evs = []
    clf = None
    for T in case["T"]:
        np_ = n * n if rule in ("full", "winner") else n - 1
        m = n + int(rng.randint(0, 6))
        y1 = rng.permutation(np.concatenate([np.arange(1, n + 1), rng.randint(1, n + 1, m - n)]))
        y = cls[y1 - 1]
        flat = [[v for r in P for v in r] for P in T] if rule in ("full", "winner") else T
        S = [flat[k] for k in rng.randint(0, len(flat), m)] if rng.rand() < .3 else spread(rng, np_, m)
        X = features(np.arange(1, m + 1), y1, S)
        Z = features(np.arange(101, 101 + len(T)), np.zeros(len(T)), flat)
        measure = case.get("measure", "kld")
        if clf is None or case["fresh"]:
            o = Oracle("pair" if rule in ("full", "winner") else "fh", n)
            if case["seed"] % 4 == 0:                  # an estimator made of others
                from sklearn.pipeline import Pipeline
                o = Pipeline([("o", o)])
            jobs = case["jobs"]
            oqt = None
            if rule == "plain":
                clf = FrankAndHallClassifier(o, n_jobs=jobs, params_fit=[{'extra' if isinstance(o, Oracle) else 'o__extra': i} for i in range(n - 1)] if case["params"] else None)
            elif rule == "monotone":
                clf = FrankAndHallMonotoneClassifier(o, n_jobs=jobs)
            elif rule == "tree":
                if case["oqt"]:
                    oqt = OrdinalQuantificationTree(estimator_test=o)
                    clf = oqt.estimator_test
                else:
                    clf = FrankAndHallTreeClassifier(o, n_jobs=jobs, **({} if measure == "kld" else dict(performance_measure={"ae": absolute_error, "bias": bias}[measure])))
            else:
                clf = DDAGClassifier(o, n_jobs=jobs, **({} if rule == "full" else dict(predict_method="winner_node")))
        bag = []
        if oqt is not None:
            out, exc = call(lambda: (oqt.fit(X, y), oqt.predict(Z))[1])
            bag = V(out) if not exc else []
        else:
            _, exc = call(clf.fit, X, y)
        ev = dict(ev={"plain": "rows", "monotone": "rows", "tree": "tree"}.get(rule, "dag"), new=not evs, exc=exc, n=n)
        if not exc:
            out, exc = call(lambda: (clf.predict_proba(Z), clf.predict(Z)))
            ev["exc"] = exc
        if exc:
            return evs + [ev]
        every = set(int(v) for v in X[:, 0])
        P, L = out
        ev.update(out=M(P), labels=num(cls, L))
        if ev["ev"] == "dag":
            ev.update(P=T, mode=rule, problems=[dict(lo=min(e.neg_ + e.pos_ + [99]), hi=max(e.neg_ + e.pos_ + [0]),
                                                     ok=len(e.neg_) == 1 and len(e.pos_) == 1 and e.neg_[0] < e.pos_[0] and
                                                     set(i for i, _ in e.binary_) == set(int(a) for a, b in zip(X[:, 0], y1) if b in (e.neg_[0], e.pos_[0]))) for e in map(bare, clf.estimators_)])
        else:
            ev.update(rule=rule, T=T, problems=[dict(pos=e.pos_, neg=e.neg_, all=set(i for i, _ in e.binary_) == every and len(e.binary_) == len(every) and (not case["params"] or e.extra == j))
                                                for j, e in enumerate(map(bare, clf.estimators_))])
            if rule == "tree":
                ev.update(train=S, y=[int(v) for v in y1], measure=measure, bag=bag)
        evs.append(ev)
    return evs


def vectors(chk):
    """all vectors of binary answers explored by the design model"""
    out = {}
    for s, d in ((1, 4), (2, 4), (3, 4)) if chk.quick else ((1, 8), (2, 8), (3, 6), (4, 4)):
        beh = chk.mc("MCDecomposition", dict(Splits=str(s), D=str(d)), ["Envelopes", "Distributions", "FrankHallRange", "Ends", "Unanimous", "TwoClasses", "Export"], emit=True)
        out[s] = sorted(b["c"] for b in beh)
    return out
