"""P10: energy-distance quantifiers."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *


def run(case):
    from quantificationlib.multiclass.energy import EDy, EDX, CvMy
    from sklearn.metrics.pairwise import manhattan_distances, euclidean_distances
    from quantificationlib.metrics.ordinal import emd_distances
    n = case["n"]
    labels = make_labels(case["names"], n)
    y = labels[np.array(case["y"]) - 1]
    tr, te = fl(case["rows"]), [fl(t) for t in case["tests"]]
    sq = lambda a, b: euclidean_distances(a, b, squared=True)
    dist = dict(manhattan=manhattan_distances, euclidean=euclidean_distances, emd=emd_distances, sqeuclidean=sq)[case["dist"]]
    kind = case["kind"]
    cls = dict(EDy=EDy, EDX=EDX, CvMy=CvMy)[kind]
    q = cls() if case.get("default") else cls(distance=dist)
    evs = []
    if kind == "EDX":
        _, fexc = call(q.fit, tr, y)
    elif case["via"] == "estimator":
        allr = np.concatenate([tr] + te)
        e = Table(labels, probs=allr)
        e.classes_ = labels
        q.estimator_train = q.estimator_test = e
        _, fexc = call(q.fit, np.arange(len(tr), dtype=float).reshape(-1, 1), y)
    else:
        _, fexc = call(q.fit, None, y[:len(y) // case.get('reps', 1)], predictions_train=tr)
    off = len(tr)
    for k, t in enumerate(te):
        if fexc:
            out, exc = None, fexc
        elif kind == "EDX":
            out, exc = call(q.predict, t)
        elif case["via"] == "estimator":
            out, exc = call(q.predict, np.arange(off, off + len(t), dtype=float).reshape(-1, 1))
        else:
            out, exc = call(q.predict, None, predictions_test=t)
        off += len(t)
        evs.append(dict(ev="predict", new=k == 0, kind=kind, n=n, dist=case["dist"], rows=case["rows"], y=case["y"], trows=case["tests"][k],
                        names=case["names"], via=case["via"], out=V(out) if not exc else [], exc=exc))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    inv = ["NonNegative", "Convex", "Recovers", "Export"]
    for k, pts, mt, ms, take in ((2, "Line3", 2, 2, 300), (2, "Line4", chk.n(2, 3), chk.n(1, 3), 400), (2, "Square", chk.n(1, 2), 2, 300), (3, "Line3", chk.n(1, 2), 2, 300)):
        beh = chk.mc("MCEnergy", dict(NC=str(k), Points="<- " + pts, MaxTrain=str(mt), MaxTest=str(ms)), inv, emit=True)
        beh.sort(key=str)
        take = chk.n(take // 2, take * 3)
        if len(beh) > take:
            beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
        for i, b in enumerate(beh):
            rows = [x for c in b["cls"] for x in c]
            y = [c + 1 for c, xs in enumerate(b["cls"]) for _ in xs]
            half = lambda r: [[str(Fraction(v, 4)) for v in x] for x in r]
            if len(rows[0]) == 1 and i % 3:       # posteriors of the same shape
                half = lambda r: [[str(Fraction(x[0], 4)), str(1 - Fraction(x[0], 4))] + ["0"] * (k - 2) for x in r]
                kind = ["EDy", "CvMy"][i % 2]
            else:
                kind = "EDX"
            cases.append(dict(kind=kind, n=k, names=LABELS[i % len(LABELS)], rows=half(rows), y=y, tests=[half(b["bag"])],
                              dist=["manhattan", "euclidean", "sqeuclidean"][i % 3], via="given"))
    for i in range(chk.n(450, 4000)):
        big = i % 110 in (7, 8, 9)        # now and then large samples or many classes
        n = int(rng.randint(2, 5)) if not big else int(rng.choice([2, 3, 6]))
        kind = ["EDy", "EDX", "CvMy"][i % 3]
        sizes = rng.choice([1, 2, 3, 5, 7] if not big else [8, 15, 25], n)
        y = np.repeat(np.arange(1, n + 1), sizes)
        m = int(rng.choice([1, 2, 5, 9] if not big else [30, 60]))
        if kind == "EDX":
            d = int(rng.randint(1, 4))
            cen = rng.randint(-24, 24, (n, d))
            spread = rng.choice([1, 6, 20])
            smp = lambda c: [str(Fraction(int(v), 8)) for v in cen[c - 1] + rng.randint(-spread, spread + 1, d)]
            rows = [smp(c) for c in y]
            tests = [[smp(c) for c in rng.randint(1, n + 1, m)] for _ in range(2)]
            dist = ["euclidean", "manhattan", "sqeuclidean"][rng.randint(3)]
        else:
            den = int(rng.choice([4, 16, 64]))
            sharp = lambda c: [str(Fraction(3, 4) * (j + 1 == c) + Fraction(1, 4) * F(v)) for j, v in enumerate(dyadic_rows(rng, 1, n, den)[0])]
            any_ = lambda c: dyadic_rows(rng, 1, n, den)[0]
            f = sharp if rng.rand() < .5 else any_
            rows = [f(c) for c in y]
            tests = [[f(c) for c in rng.choice(rng.choice(n, rng.randint(1, n + 1), replace=False), m) + 1] for _ in range(2)]
            if i % 5 == 0:
                tests.append([rows[j] for j in rng.permutation(len(rows))])
            dist = ["manhattan", "euclidean", "emd" if kind == "EDy" else "euclidean"][rng.randint(3)]   # emd needs rows of equal mass
        perm = rng.permutation(len(y))
        case = dict(kind=kind, n=n, names=LABELS[rng.randint(len(LABELS))], rows=[rows[j] for j in perm], y=[int(y[j]) for j in perm], tests=tests,
                    dist=dist, via=["given", "estimator"][rng.randint(2)])
        if kind != "EDX" and case["via"] == "given" and len(y) < 13:      # stacked repetitions
            case.update(reps=2, rows=case["rows"] + [f(c) for c in case["y"]], y=case["y"] * 2)
        if rng.rand() < .2:
            case["default"] = True
            case["dist"] = "euclidean" if kind == "EDX" else "manhattan"
        cases.append(case)
    chk.validate("TraceEnergy", chk.record(run, cases))
    return chk.finish(assumptions=["distances of negative type (Manhattan, Euclidean, squared Euclidean, earth mover's), for which the energy distance is convex"])
