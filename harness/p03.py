"""P03: adjusted counting."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *


def run(case):
    from quantificationlib.baselines.ac import AC, PAC
    n = case["n"]
    labels = make_labels(case["names"], n)
    y = labels[np.array(case["y"]) - 1]
    ev = dict(ev="predict", new=True, kind=case["kind"], n=n, dist=case["dist"], y=case["y"], via=case["via"], names=case["names"], reps=case.get("reps", 1))
    if case["kind"] == "AC":
        tr, te = labels[np.array(case["preds"]) - 1], labels[np.array(case["test"]) - 1]
        ev.update(preds=case["preds"], test=case["test"])
        if case["via"] == "probs":     # one-hot rows instead of labels
            tr, te = np.eye(n)[np.array(case["preds"]) - 1], np.eye(n)[np.array(case["test"]) - 1]
    else:
        tr, te = fl(case["rows"]), fl(case["trows"])
        ev.update(rows=case["rows"], trows=case["trows"])
    q = (AC if case["kind"] == "AC" else PAC)(distance=case["dist"])
    if case["via"] == "estimator":
        both = np.concatenate([tr, te])
        e = Table(labels, probs=both if case["kind"] == "PAC" else None, preds=both if case["kind"] == "AC" else None)
        e.classes_ = labels
        q.estimator_train = q.estimator_test = e
        _, exc = call(q.fit, np.arange(len(tr), dtype=float).reshape(-1, 1), y)
        out, exc = call(q.predict, np.arange(len(tr), len(both), dtype=float).reshape(-1, 1)) if not exc else (None, exc)
    else:
        _, exc = call(q.fit, None, y[:len(y) // case.get("reps", 1)], predictions_train=tr)
        out, exc = call(q.predict, None, predictions_test=te) if not exc else (None, exc)
    ev.update(out=V(out) if not exc else [], exc=exc)
    return [ev]


def expand(table):
    y, p = [], []
    for t, row in enumerate(table):
        for k, c in enumerate(row):
            y += [t + 1] * c
            p += [k + 1] * c
    return y, p


def main(chk):
    cases = []
    inv = ["RatesAreDistributions", "AnswerIsDistribution", "Inverts", "Explains", "PerfectIsCount", "Export"]
    rng = np.random.RandomState(chk.seed)
    for k, mt, ms, take in ((2, 4, chk.n(3, 4), 1500), (3, chk.n(1, 2), 2, chk.n(900, 6000))):
        beh = chk.mc("AdjustedCount", dict(K=str(k), MaxTrain=str(mt), MaxTest=str(ms)), inv, emit=True)
        beh.sort(key=str)
        if len(beh) > take:
            beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
        for i, b in enumerate(beh):
            y, p = expand(b["table"])
            test = [j + 1 for j, c in enumerate(b["test"]) for _ in range(c)]
            cases.append(dict(kind="AC", n=k, y=y, preds=p, test=test, dist=["HD", "L2", "L1"][i % 3],
                              names=LABELS[i % len(LABELS)], via=["given", "probs", "estimator"][i % 3 if i % 2 else 0]))
    for i in range(chk.n(1500, 15000)):
        big = i % 75 == 11        # now and then large samples or many classes
        n = rng.randint(2, 5) if not big else rng.choice([2, 3, 6, 8])
        dist = ["HD", "L2", "L1"][rng.randint(3)]
        nm = LABELS[rng.randint(len(LABELS))]
        kind = ["AC", "PAC"][rng.randint(2)]
        sizes = rng.choice([1, 2, 3, 4, 8, 11] if not big else [5, 40, 64, 150], n)
        shape = rng.choice(["any", "good", "same", "never"], p=[.4, .35, .15, .1])
        if shape == "same":
            sizes[:] = rng.choice([2, 4, 8] if not big else [16, 64])
        y = np.repeat(np.arange(1, n + 1), sizes)
        m = int(rng.choice([1, 2, 5, 8, 30] if not big else [128, 300, 1000]))
        sub = list(range(n))
        if shape == "never":
            sub.remove(rng.randint(n))
        if kind == "AC":
            preds = rng.choice(sub, len(y)) + 1
            if shape == "good":
                preds = np.where(rng.rand(len(y)) < .8, y, preds)
            if shape == "same":
                preds[y == 2] = rng.permutation(preds[y == 1])
            perm = rng.permutation(len(y))
            case = dict(y=y[perm].tolist(), preds=[int(v) for v in preds[perm]], test=[int(v) + 1 for v in rng.choice(sub, m)])
        else:
            den = int(rng.choice([4, 16, 64]))
            rows = dyadic_rows(rng, len(y), n, den, sub)
            if shape == "good":
                rows = [dyadic_rows(rng, 1, n, den)[0] if rng.rand() < .3 else [str(int(j + 1 == c)) for j in range(n)] for c in y]
            if shape == "same":
                one = [r for r, c in zip(rows, y) if c == 1]
                rng.shuffle(one)
                it = iter(one)
                rows = [next(it) if c == 2 else r for r, c in zip(rows, y)]
            if shape == "good" and n > 2 and i % 3 == 0:     # one class behaves as the average of two others
                s2 = [4, 4, 8] + [2] * (n - 3)
                y = np.repeat(np.arange(1, n + 1), s2)
                rows = dyadic_rows(rng, 8, n, den)
                rows += rows + dyadic_rows(rng, 2 * (n - 3), n, den)
            perm = rng.permutation(len(y))
            case = dict(y=y[perm].tolist(), rows=[rows[j] for j in perm], trows=dyadic_rows(rng, m, n, den, sub))
        via = ["given", "estimator"][rng.randint(2)]
        if via == "given" and i % 3 == 0:        # two stacked repetitions, the second one sorted differently
            c2 = {}
            p2 = rng.permutation(len(case["y"]))
            for k in ("rows", "preds"):
                if k in case:
                    c2[k] = case[k] + [case[k][j] for j in p2]
            case.update(c2, y=case["y"] * 2, reps=2)
        cases.append(dict(case, kind=kind, n=int(n), dist=dist, names=nm, via=via))
    # the limit of distinguishable rates, with 1024 examples per class
    for i in range(12):
        d = [0, 1, 1, 2, 2, 4][i % 6] * [1, -1][i // 6]
        base = 512
        y = [1] * 1024 + [2] * 1024
        p = [2] * base + [1] * (1024 - base) + [2] * (base + d) + [1] * (1024 - base - d)
        cases.append(dict(kind="AC", n=2, y=y, preds=p, test=[1, 2, 2], dist="HD", names="int0", via="given"))
        r = lambda k: [str(Fraction(1024 - k, 1024)), str(Fraction(k, 1024))]
        cases.append(dict(kind="PAC", n=2, y=[1, 2], rows=[r(base), r(base + d)], trows=[r(base + 1)], dist="HD", names="int0", via="given"))
    chk.validate("TraceAdjusted", chk.record(run, cases))
    return chk.finish(assumptions=["Hellinger optimum up to 1e-3 in the objective: the library runs its conic solver with loose tolerances"])
