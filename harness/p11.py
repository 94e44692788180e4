"""P11: Friedman's method."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *
from p07 import func


def run(case):
    from quantificationlib.multiclass.friedman import FriedmanME
    n = case["n"]
    labels = make_labels(case["names"], n)
    y = labels[np.array(case["y"]) - 1]
    tr, te = fl(case["rows"]), [fl(t) for t in case["tests"]]
    kw = {} if case.get("default") else dict(distance=func(case["dist"], len(y) % 2))
    if case.get("tol"):
        kw["tol"] = case["tol"]
    q = FriedmanME(**kw)
    if case["via"] == "estimator":
        e = Table(labels, probs=np.concatenate([tr] + te))
        e.classes_ = labels
        q.estimator_train = q.estimator_test = e
        _, fexc = call(q.fit, np.arange(len(tr), dtype=float).reshape(-1, 1), y)
    else:
        _, fexc = call(q.fit, None, y[:len(y) // case["reps"]], predictions_train=tr)
    evs, off = [], len(tr)
    for i, t in enumerate(te):
        if fexc:
            out, exc = None, fexc
        elif case["via"] == "estimator":
            out, exc = call(q.predict, np.arange(off, off + len(t), dtype=float).reshape(-1, 1))
        else:
            out, exc = call(q.predict, None, predictions_test=t)
        off += len(t)
        evs.append(dict(ev="predict", new=i == 0, n=n, rows=case["rows"], y=case["y"], trows=case["tests"][i], dist=case["dist"], via=case["via"],
                        names=case["names"], reps=case["reps"], out=V(out) if not exc else [], exc=exc,
                        mtrain=M(q.train_distrib_) if not fexc else [], mtest=V(np.asarray(q.test_distrib_).reshape(-1)) if not exc else []))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    for k, rows, mt, ms, take in ((2, "Q2", 2, chk.n(1, 2), 300), (3, "H3", 1, chk.n(1, 2), 300)):
        beh = chk.mc("MCFriedman", dict(NC=str(k), PostRows="<- " + rows, MaxTrain=str(mt), MaxTest=str(ms)), ["Rates", "Recovers", "Export"], emit=True)
        beh.sort(key=str)
        take = chk.n(take, 5 * take)
        if len(beh) > take:
            beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
        for i, b in enumerate(beh):
            rws = [x for c in b["cls"] for x in c]
            y = [c + 1 for c, xs in enumerate(b["cls"]) for _ in xs]
            cases.append(dict(n=k, names=LABELS[i % len(LABELS)], rows=rws, y=y, tests=[b["bag"]], dist=["L2", "L1", "HD", "fl2", "fl1"][i % (5 if k == 2 else 3)],
                              via="given", reps=1))
    for i in range(chk.n(600, 6000)):
        big = i % 90 == 7        # now and then large samples or many classes
        n = int(rng.randint(2, 6)) if not big else int(rng.choice([2, 3, 5, 7]))
        # sizes with a power-of-two total now and then: posteriors may equal the training prevalence
        sizes = rng.choice([1, 2, 3, 6, 10] if not big else [10, 50, 100], n) if big or rng.rand() < .5 else np.array([[2, 6], [1, 3, 4], [2, 4, 8, 2], [1, 1, 2, 4, 8]][n - 2])
        y = np.repeat(np.arange(1, n + 1), sizes)
        den = int(rng.choice([4, 8, 16, 64]))
        sharp = lambda c: [str(Fraction(3, 4) * (j + 1 == c) + Fraction(1, 4) * F(v)) for j, v in enumerate(dyadic_rows(rng, 1, n, den)[0])]
        any_ = lambda c: dyadic_rows(rng, 1, n, den)[0]
        f = sharp if rng.rand() < .4 else any_
        perm = rng.permutation(len(y))
        y = [int(y[j]) for j in perm]
        rows = [f(c) for c in y]
        tests = [[f(c) for c in rng.choice(rng.choice(n, rng.randint(1, n + 1), replace=False), int(rng.choice([1, 2, 6, 12] if not big else [101, 256]))) + 1] for _ in range(2)]
        via, reps = ["given", "estimator"][rng.randint(2)], 1
        if via == "given" and i % 3 == 0:
            reps = 2
            y = y + y
            rows = rows + [f(c) for c in y[:len(y) // 2]]
        dists = ["HD", "L2", "L1"] + (["fl1", "fl2", "fhd"] if n == 2 else [])
        dist = dists[rng.randint(len(dists))]
        c = dict(n=n, names=LABELS[rng.randint(len(LABELS))], rows=rows, y=y, tests=tests, dist=dist, via=via, reps=reps)
        if dist == "L2" and rng.rand() < .4:
            c["default"] = True
        cases.append(c)
    chk.validate("TraceFriedman", chk.record(run, cases))
    return chk.finish(assumptions=["Hellinger is the library's objective, one minus the summed roots of products (solver tolerance 2e-3)",
                                   "a user distance is used in two-class problems only, and may refuse (ValueError) when all prevalences are equally good"])
