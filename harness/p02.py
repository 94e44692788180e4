"""P02: counting quantifiers."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *


def run(case):
    from quantificationlib.baselines.cc import CC, PCC
    labels = make_labels(case["names"], case["n"])
    n, kind = case["n"], case["kind"]
    y = labels[np.array(case["ytrain"])]
    X = np.zeros((len(y), 2))
    ev = dict(ev="predict", new=True, kind=kind, n=n, names=case["names"], via=case["via"])
    if kind == "labels":
        pr = np.array(case["preds"])
        arr = np.where(pr < 0, 0, pr)
        test = labels[arr]
        ev["preds"] = [p + 1 for p in case["preds"]]
        q, Z = CC(), np.zeros((len(pr), 2))
        est_probs = None
    elif kind == "column":
        sc = np.array([float(F(s)) for s in case["scores"]])
        test = sc.reshape(-1, 1) if case["via"] == "col2d" else sc
        ev["scores"] = case["scores"]
        q, Z = CC(), np.zeros((len(sc), 2))
    else:
        rows = np.array([[float(F(s)) for s in r] for r in case["rows"]])
        test = rows
        ev["rows"] = case["rows"]
        q, Z = (PCC() if kind == "mean" else CC()), np.zeros((len(rows), 2))
    if case["via"] == "estimator":
        Z = np.arange(len(test), dtype=float).reshape(-1, 1)
        est = Table(labels, probs=test if kind == "mean" else None, preds=test if kind == "labels" else None)
        est.classes_ = labels
        q.estimator_test = est
        _, exc = call(q.fit, np.zeros((len(y), 1)), y)
        out, exc = call(q.predict, Z) if not exc else (None, exc)
    else:
        _, exc = call(q.fit, X, y)
        out, exc = call(q.predict, None if case["via"] == "noX" else Z, predictions_test=test) if not exc else (None, exc)
    ev.update(out=V(out) if not exc else [], exc=exc)
    return [ev]


def main(chk):
    cases = []
    # behaviours of the design model, replayed
    for k, rows, n in ((2, "Quarters2", chk.n(4, 5)), (3, "Halves3", chk.n(4, 5))):
        beh = chk.mc("MCCounting", {"K": str(k), "Rows": "<- " + rows, "MaxN": str(n)},
                     ["CountsAreShares", "MassesAreMeans", "Distributions", "OrderFree", "BinaryAgrees", "Export"], emit=True)
        names = ["int0", "neg", "str", "gap"]
        for i, b in enumerate(beh):
            nm = names[i % len(names)]
            yt = list(range(k)) + [i % k]
            base = dict(n=k, names=nm, ytrain=yt)
            cases.append(dict(base, kind="probs", rows=b["bag"], via="given"))
            cases.append(dict(base, kind="mean", rows=b["bag"], via=["given", "estimator", "noX"][i % 3]))
            if k == 2:
                cases.append(dict(base, kind="column", scores=[r[1] for r in b["bag"]], via=["col2d", "col1d"][i % 2]))
    # random larger bags, more classes, every label type
    rng = np.random.RandomState(chk.seed)
    for i in range(chk.n(2500, 30000)):
        big = i % 83 == 7        # now and then a large bag, many classes
        k = rng.randint(2, 6) if not big else int(rng.choice([2, 4, 9, 12]))
        nm = LABELS[rng.randint(len(LABELS))]
        m = rng.choice([1, 2, 3, 5, 8, 16, 50, 101]) if not big else rng.choice([255, 256, 300, 1000, 1001, 1500])
        yt = list(range(k)) + rng.randint(0, k, 5).tolist()
        rng.shuffle(yt)
        base = dict(n=k, names=nm, ytrain=yt)
        sub = rng.choice(k, rng.randint(1, k + 1), replace=False)
        kind = ["labels", "probs", "mean", "column"][rng.randint(4)]
        if kind == "labels":
            cases.append(dict(base, kind=kind, preds=[int(x) for x in rng.choice(sub, m)], via=["given", "estimator", "noX"][rng.randint(3)]))
        elif kind == "column":
            if k == 2:
                cases.append(dict(base, kind=kind, scores=[str(Fraction(int(x), 16)) for x in rng.randint(0, 17, m)],
                                  via=["col2d", "col1d"][rng.randint(2)]))
        else:
            rows = dyadic_rows(rng, m, k, rng.choice([2, 4, 8, 64]), sub)
            cases.append(dict(base, kind=kind, rows=rows, via=["given", "noX"][rng.randint(2)] if kind == "probs" else ["given", "estimator", "noX"][rng.randint(3)]))
    chk.validate("TraceCounting", chk.record(run, cases))
    return chk.finish(assumptions=["a bag given as a one-dimensional float array holds the labels when the labels are floats and every value is one of them, and binary scores otherwise"])
