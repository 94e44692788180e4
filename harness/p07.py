"""P07: histogram matching."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *


def plain_l1(p, q):
    return np.sum(np.abs(p - q))


def plain_l2(p, q):
    return np.sqrt(np.sum((p - q) ** 2))



def func(name, own=False):
    """a distance by its name: functions of the library or functions a user would write"""
    from quantificationlib.metrics.multiclass import l1, l2, hd, topsoe
    if own and name in ("fl1", "fl2"):
        return dict(fl1=plain_l1, fl2=plain_l2)[name]
    return dict(fl1=l1, fl2=l2, fhd=hd, ftopsoe=topsoe).get(name, name)


def run(case):
    from quantificationlib.multiclass.df import DFy, DFX, HDy, HDX, MMy
    n, kind = case["n"], case["kind"]
    labels = make_labels(case["names"], n)
    y = labels[np.array(case["y"]) - 1]
    tr = fl(case["rows"])
    te = [fl(t) for t in case["tests"]]
    dist, cdf, nb, strat = case["dist"], case["cdf"], case["nb"], case["strat"]
    df = "CDF" if cdf else "PDF"
    if kind == "DFy":
        q = DFy(distribution_function=df, n_bins=nb, bin_strategy=strat, distance=func(dist, len(y) % 2), tol=case["tol"])
    elif kind == "DFX":
        q = DFX(distribution_function=df, n_bins=nb, bin_strategy=strat, distance=func(dist, len(y) % 2), tol=case["tol"])
    elif kind == "HDy":
        q = HDy(n_bins=nb, bin_strategy=strat)
    elif kind == "HDX":
        q = HDX(n_bins=nb, bin_strategy=strat)
    else:
        q = MMy(n_bins=nb, bin_strategy=strat)
    probs = kind in ("DFy", "HDy", "MMy")
    yext = y
    if not probs:
        _, fexc = call(q.fit, tr, y)
    elif case["via"] == "estimator":
        e = Table(labels, probs=np.concatenate([tr] + te))
        e.classes_ = labels
        q.estimator_train = q.estimator_test = e
        _, fexc = call(q.fit, np.arange(len(tr), dtype=float).reshape(-1, 1), y)
    else:
        yy = y[:len(y) // case["reps"]]
        _, fexc = call(q.fit, None, yy, predictions_train=tr)
    nd = (1 if n == 2 else n) if probs else tr.shape[1]
    evs = []
    off = len(tr)
    for i, t in enumerate(te):
        if fexc:
            out, exc = None, fexc
        elif not probs:
            out, exc = call(q.predict, t)
        elif case["via"] == "estimator":
            out, exc = call(q.predict, np.arange(off, off + len(t), dtype=float).reshape(-1, 1))
        else:
            out, exc = call(q.predict, None, predictions_test=t)
        off += len(t)
        ev = dict(ev="predict", new=i == 0, kind=kind, n=n, rows=[r[:nd] for r in case["rows"]], y=case["y"], trows=[r[:nd] for r in case["tests"][i]],
                  strat=strat, nb=nb, cdf=cdf, dist=dist, probs=probs, via=case["via"], names=case["names"], out=[], exc=exc, cuts=[[]], mtrain=[], mtest=[])
        if not exc:
            ev["out"] = V(out)
            ev["cuts"] = [r[1:-1] for r in M(np.asarray(q.bincuts_, dtype=float))]
            ev["mtrain"] = M(q.train_distrib_)
            ev["mtest"] = V(np.asarray(q.test_distrib_).reshape(-1))
        elif not fexc:
            ev["cuts"] = [r[1:-1] for r in M(np.asarray(q.bincuts_, dtype=float))]
        evs.append(ev)
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    inv = ["OneBin", "Descriptions", "Recovers", "RecoversHD", "Export"]
    for k, cuts, vals, mt, ms, take in ((2, "Cuts3", "Vals3", 3, 2, 250), (2, "Cuts4", "Vals4", 2, 2, 250), (3, "Cuts3", "Vals3", chk.n(1, 2), 2, 200), (2, "Tied", "Vals3", 2, 2, 0)):
        beh = chk.mc("MCHistogram", dict(NC=str(k), Cuts="<- " + cuts, Values="<- " + vals, MaxTrain=str(mt), MaxTest=str(ms)), inv, emit=True)
        beh.sort(key=str)
        take = chk.n(take, take * 6)
        if len(beh) > take:
            beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
        for i, b in enumerate(beh):
            nb = len(b["bag"])
            # one value in the middle of each bin of [0, 1]
            mid = lambda j: Fraction(2 * j + 1, 2 * nb) if nb == 4 else [Fraction(1, 8), Fraction(3, 8), Fraction(3, 4)][j]
            col = lambda h: [mid(j) for j, c in enumerate(h) for _ in range(c)]
            rows, y = [], []
            for c, h in enumerate(b["hist"]):
                for x in col(h):
                    rows.append(x)
                    y.append(c + 1)
            mk = lambda x: [str(x), str(1 - x)] + ["0"] * (k - 2)
            kind = ["DFy", "DFX"][i % 2]
            dist = ["L1", "L2", "HD", "fl2", "fl1", "ftopsoe"][i % (6 if k == 2 else 3)]
            cases.append(dict(kind=kind, n=k, names=LABELS[i % len(LABELS)], rows=[mk(x) if kind == "DFy" else [str(x)] for x in rows], y=y,
                              tests=[[mk(x) if kind == "DFy" else [str(x)] for x in col(b["bag"])]], strat=["equal_width", "equal_count", "normal"][i % 3],
                              nb=[nb, 2, 4, 8][i % 4], cdf=bool(i // 2 % 2), dist=dist, tol=1e-7, via="given", reps=1))
    for i in range(chk.n(420, 4500)):
        big = i % 70 == 9        # now and then large samples or many bins
        n = int(rng.randint(2, 5)) if i % 60 != 9 else 6
        kind = ["DFy", "DFX", "DFy", "DFX", "HDy", "HDX", "MMy"][rng.randint(7)]
        sizes = rng.choice([1, 2, 3, 6, 10] if not big else [20, 60, 110], n)
        y = np.repeat(np.arange(1, n + 1), sizes)
        m = int(rng.choice([1, 2, 6, 12] if not big else [100, 256, 400]))
        strat = ["equal_width", "equal_count", "normal", "binormal"][rng.randint(4 if n == 2 else 3)]
        if kind in ("DFX", "HDX"):
            d = int(rng.randint(1, 4))
            cen = rng.randint(-12, 12, (n, d))
            spread = rng.choice([0, 3, 10])
            smp = lambda c: [str(Fraction(int(v), 8)) for v in cen[c - 1] + rng.randint(-spread, spread + 1, d)]
            if i % 11 == 0:
                cen[:, 0] = 3
                f0 = smp
                smp = lambda c: ["3/8"] + f0(c)[1:]
            rows = [smp(c) for c in y]
            tests = [[smp(c) if rng.rand() < .9 else [str(Fraction(int(v), 4)) for v in rng.randint(-99, 99, d)] for c in rng.randint(1, n + 1, m)] for _ in range(2)]
        else:
            den = int(rng.choice([4, 16, 64]))
            sharp = lambda c: [str(Fraction(3, 4) * (j + 1 == c) + Fraction(1, 4) * F(v)) for j, v in enumerate(dyadic_rows(rng, 1, n, den)[0])]
            any_ = lambda c: dyadic_rows(rng, 1, n, den)[0]
            f = sharp if rng.rand() < .6 else any_
            rows = [f(c) for c in y]
            if i % 13 == 0:
                rows = [rows[0]] * len(rows)
            tests = [[f(c) for c in rng.choice(rng.choice(n, rng.randint(1, n + 1), replace=False), m) + 1] for _ in range(2)]
        if i % 5 == 0:
            tests.append([rows[j] for j in rng.permutation(len(rows))])
        via, reps = ["given", "estimator", "given"][rng.randint(3)], 1
        perm = rng.permutation(len(y))
        rows, y = [rows[j] for j in perm], [int(y[j]) for j in perm]
        if kind in ("DFy", "HDy", "MMy") and via == "given" and i % 4 == 0:   # predictions of two repetitions, stacked
            reps = 2
            rows, y = rows + [rows[j] if rng.rand() < .5 else f(y[j]) for j in range(len(y))], y + y
        dists = ["HD", "L2", "L1"] + (["fl1", "fl2", "fhd", "ftopsoe"] if n == 2 else [])
        dist, cdf = dists[rng.randint(len(dists))], bool(rng.randint(2))
        if kind in ("HDy", "HDX"):
            dist, cdf = "HD", False
        if kind == "MMy":
            dist, cdf = "L1", True
        cases.append(dict(kind=kind, n=n, names=LABELS[rng.randint(len(LABELS))], rows=rows, y=y, tests=tests, strat=strat,
                          nb=int(rng.choice([2, 3, 4, 5, 8, 10] if i % 40 != 3 else [16, 32, 50])), cdf=cdf, dist=dist, tol=float(rng.choice([1e-5, 1e-8])), via=via, reps=reps))
    chk.validate("TraceHistogram", chk.record(run, cases))
    return chk.finish(assumptions=["Hellinger is the library's objective, one minus the summed roots of products, and its optimum is judged up to 1e-3 + 1e-4 per bin (conic solver with loose tolerances)",
                                   "a user distance is used in two-class problems only, and may refuse (ValueError) when all prevalences are equally good"])
