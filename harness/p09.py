"""P09: expectation maximisation."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *


def run(case):
    from quantificationlib.multiclass.em import EM
    counts = case["counts"]
    n = len(counts)
    labels = make_labels(case["names"], n)
    y = labels[np.repeat(np.arange(n), counts)]
    rng = np.random.RandomState(case["rs"])
    y = y[rng.permutation(len(y))]
    kw = {}
    if case["eps"] is not None:
        kw["epsilon"] = case["eps"]
    if case["max"] is not None:
        kw["max_iter"] = case["max"]
    q = EM(**kw)
    # the posteriors of the training set play no role
    tr = fl(dyadic_rows(rng, len(y), n, 16))
    if case["via"] == "cv":      # stacked predictions of two repetitions
        tr = np.concatenate([tr, tr[::-1]])
    evs = []
    exc0 = ""
    allr = np.concatenate([tr] + [fl(b) for b in case["bags"]])
    if case["via"] == "estimator":
        e = Table(labels, probs=allr)
        e.classes_ = labels
        q.estimator_train = q.estimator_test = e
        _, exc0 = call(q.fit, np.arange(len(y), dtype=float).reshape(-1, 1), y)
    else:
        _, exc0 = call(q.fit, None, y, predictions_train=tr)
    off = len(tr)
    for i, b in enumerate(case["bags"]):
        if exc0:
            out, exc = None, exc0
        elif case["via"] == "estimator":
            out, exc = call(q.predict, np.arange(off, off + len(b), dtype=float).reshape(-1, 1))
        else:
            out, exc = call(q.predict, None, predictions_test=fl(b))
        off += len(b)
        evs.append(dict(ev="predict", new=i == 0, counts=counts, rows=b, eps=R(1e-4 if case["eps"] is None else case["eps"]),
                        max=1000 if case["max"] is None else case["max"], names=case["names"], via=case["via"],
                        out=V(out) if not exc else [], exc=exc))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    for k, rows, mb, it, take in ((2, "Q2", chk.n(3, 4), chk.n(6, 12), 400), (3, "H3", 2, chk.n(5, 10), 500)):
        beh = chk.mc("MCEM", dict(K=str(k), PostRows="<- " + rows, MaxBag=str(mb), Counts="{1, 3}" if k == 2 else "{1, 2}", MaxIter=str(it)),
                     ["Distribution", "Calibrated", "Export"], properties=["LikelihoodGrows"], emit=True)
        beh.sort(key=str)
        take = chk.n(take, take * 5)
        if len(beh) > take:
            beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
        for i, b in enumerate(beh):
            cases.append(dict(counts=b["counts"], bags=[b["bag"]], names=LABELS[i % len(LABELS)], via=["given", "estimator", "cv"][i % 3],
                              eps=[None, 1e-2, 1e-3][i % 3], max=[None, 20, 3][i % 5 % 3], rs=i))
    for i in range(chk.n(350, 3500)):
        big = i % 50 == 7        # now and then large bags or many classes
        k = int(rng.randint(2, 6)) if not big else int(rng.choice([2, 3, 7, 9]))
        counts = [int(x) for x in rng.choice([1, 2, 3, 7, 20, 100] if not big else [1, 30, 300, 1000], k)]
        den = int(rng.choice([4, 16, 64, 256]))
        bags = []
        for _ in range(rng.randint(1, 4)):
            sub = rng.choice(k, rng.randint(1, k + 1), replace=False)
            bags.append(dyadic_rows(rng, int(rng.choice([1, 2, 4, 8, 14] if not big else [64, 120, 200])), k, den, sub))
        cases.append(dict(counts=counts, bags=bags, names=LABELS[rng.randint(len(LABELS))], via=["given", "estimator", "cv"][rng.randint(3)],
                          eps=[None, 1e-2, 1e-3, 0.05, 0.3][rng.randint(5)], max=[None, None, 1, 5, 9, 10, 11, 12, 25][rng.randint(9)], rs=i))
    chk.validate("TraceEM", chk.record(run, cases))
    return chk.finish(assumptions=["at a change within 1e-9 of epsilon either decision to stop is accepted"])
