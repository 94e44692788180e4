"""P27: nearest-neighbour classification and quantification."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *

METRIC = {1: dict(p=1), 2: dict(p=2), 3: dict(p=3), 9: dict(metric="chebyshev"), 10: dict(metric="manhattan"), 20: dict(metric="euclidean")}
REAL = {1: 1, 2: 2, 3: 3, 9: 9, 10: 1, 20: 2}


def ix(labels, out):
    try:
        return [int(np.where(labels == v)[0][0]) + 1 if (labels == v).sum() == 1 else 0 for v in np.asarray(out).tolist()]
    except Exception:
        return [0]


def run(case):
    from quantificationlib.estimators.weighted_knn import PWK
    from quantificationlib.multiclass.knn import PWKQuantifier
    evs = []
    c = q = None
    for f in case["fits"]:
        n = f["n"]
        labels = make_labels(case["names"], n)
        y = labels[np.array(f["y"]) - 1]
        X, T = fl(f["pts"]), [fl(t) for t in f["tests"]]
        if c is None or case["fresh"]:
            c, q = PWK(n_neighbors=case["k"], **METRIC[case["metric"]]), PWKQuantifier(n_neighbors=case["k"], **METRIC[case["metric"]])
        _, exc = call(c.fit, X, y)
        _, qexc = call(q.fit, X, y)
        ptrain, texc = call(c.predict, X) if not exc else (None, exc)
        base = dict(n=n, y=f["y"], new=True)
        for t, ts in zip(T, f["tests"]):
            lab, e1 = call(c.predict, t) if not exc else (None, exc)
            pro, e2 = call(c.predict_proba, t) if not exc else (None, exc)
            evs.append(dict(base, ev="classify", pts=f["pts"], k=case["k"], metric=REAL[case["metric"]], ask=ts, labels=ix(labels, lab) if not e1 else [], proba=M(pro) if not e2 else [], exc=e1 or e2))
            out, e3 = call(q.predict, t) if not qexc else (None, qexc)
            evs.append(dict(base, ev="quantify", ptrain=ix(labels, ptrain) if not texc else [], ptest=ix(labels, lab) if not e1 else [], out=V(out) if not e3 else [], exc=e3 or texc or e1))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    for nc, mt, k, take in ((2, 5, 1, 60), (2, 5, 2, 80), (2, 5, 3, 100), (3, 5, 3, 100), (2, 5, 5, 30)):
        beh = chk.mc("MCNeighbours", dict(NC=str(nc), Places="{0, 1, 2, 4}", MaxTrain=str(chk.n(mt, mt + 1 if k < 5 else mt)), K=str(k)),
                     ["Distribution", "Agree", "Sets", "Majority", "Balanced", "Export"], emit=True)
        beh.sort(key=str)
        take = chk.n(take, take * 12)
        if len(beh) > take:
            beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
        for i, b in enumerate(beh):
            cases.append(dict(names=LABELS[i % len(LABELS)], k=k, metric=[2, 1, 9, 20][i % 4], fresh=True,
                              fits=[dict(n=nc, y=b["y"], pts=[[str(v) for v in p] for p in b["pts"]], tests=[[[str(b["asked"])]]])]))
    for i in range(chk.n(450, 5000)):
        refit = i % 5 == 4
        big = i % 60 == 7        # now and then more examples, classes or neighbours
        k = int(rng.choice([1, 2, 3, 5, 10] if not big else [10, 25, 40]))
        fits = []
        d = int(rng.randint(1, 4))
        for _ in range(1 + refit):
            n = int(rng.randint(2, 5)) if not big else int(rng.choice([2, 3, 6, 8]))
            sizes = rng.choice([1, 2, 4, 9, 14] if not big else [9, 14, 60], n)
            while sizes.sum() < k:
                sizes[rng.randint(n)] += 3
            if fits and rng.randint(2) and len(fits[0]["y"]) > 2 * n:       # a second training set exactly as large as the first
                n = fits[0]["n"] if rng.randint(2) else n
                cut = np.sort(rng.choice(np.arange(1, len(fits[0]["y"])), n - 1, replace=False))
                sizes = np.diff(np.concatenate([[0], cut, [len(fits[0]["y"])]]))
            y = [int(v) for v in rng.permutation(np.repeat(np.arange(1, n + 1), sizes))]
            near = rng.choice([0, 2, 6])
            g = 1 if not big else 512        # few ties among many neighbours: every way of breaking them is considered
            new = lambda c: [str(Fraction(int(v), 8 * g)) for v in rng.randint(-12 * g, 12 * g + 1, d) + near * g * c]
            pts = [new(c) for c in y]
            tests = [[new(int(c)) for c in rng.randint(1, n + 1, rng.choice([1, 3, 8] if not big else [60, 101]))], [pts[int(j)] for j in rng.choice(len(pts), min(12, len(pts)))]]
            fits.append(dict(n=n, y=y, pts=pts, tests=tests))
        cases.append(dict(names=LABELS[rng.randint(len(LABELS))], k=k, metric=[1, 2, 3, 9, 10, 20][rng.randint(6)], fresh=not refit, fits=fits))
    chk.validate("TraceNeighbours", chk.record(run, cases))
    return chk.finish(assumptions=["at least two classes and at least k training examples; examples at the same distance may be taken in any order; equal totals may be decided either way",
                                   "in problems of more than two classes the adjusted counts minimise the L1 distance between explained and observed counts"])
