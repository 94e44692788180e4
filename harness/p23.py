"""P23: ordinal quantifiers match cumulative and score distributions over class order."""
import numpy as np
from core import *
from gen import *


def run(case):
    from quantificationlib.ordinal.ac_ordinal import ACOrdinal
    from quantificationlib.ordinal.pdf import PDFOrdinaly
    n = case["n"]
    cls = make_labels(case["names"], n)
    q = None
    evs = []
    for f in case["fits"]:
        y = cls[np.array(f["y"]) - 1]
        X = np.arange(len(y), dtype=float).reshape(-1, 1)
        crisp = case["kind"] == "counts"
        enc = lambda p: fl(p) if not crisp else (np.eye(n)[np.array(p) - 1] * .5 + .5 / n if case["onehot"] else cls[np.array(p) - 1])
        T = enc(f["train"])
        if q is None:
            kw = {}
            if case["est"]:
                kk = dict(probs=T) if not crisp else dict(preds=T, probs=np.eye(n)[np.array(f["train"]) - 1])
                kw["estimator_train"] = Table(labels=cls, **kk).fit(X, y)
            if crisp:
                q = ACOrdinal(**kw)
            else:
                q = PDFOrdinaly(n_bins=case["nb"], distance=case["dist"], method=case["method"], **kw)
        _, exc = call(q.fit, X, y, **({} if case["est"] else dict(predictions_train=T)))
        for t in f["tests"]:
            Tt = enc(t)
            out = None
            if not exc:
                if case["est"]:
                    q.estimator_test = Table(labels=cls, **(dict(probs=Tt) if not crisp else dict(preds=Tt, probs=np.eye(n)[np.array(t) - 1]))).fit(X, y)
                    out, exc2 = call(q.predict, np.arange(len(t), dtype=float).reshape(-1, 1))
                else:
                    out, exc2 = call(q.predict, None, predictions_test=Tt)
            ev = dict(ev=case["kind"], new=not evs, exc=exc or exc2, n=n, y=f["y"], dist=case["dist"], nb=case["nb"], method=case["method"], out=V(out))
            ev.update(dict(preds=f["train"], test=t) if crisp else dict(rows=f["train"], trows=t))
            evs.append(ev)
            if exc:
                return evs
        if case["est"]:
            break
    return evs


def exact_bins(n, nb):
    """bin edges at the classes are exact"""
    e = np.linspace(1., float(n), nb * (n - 1) + 1)
    return all(e[i * nb] == i + 1 for i in range(n))


def leaf(rng, n, den):
    j = rng.randint(0, n - 1)
    p = Fraction(int(rng.randint(0, den + 1)), den)
    r = [Fraction(0)] * n
    r[j], r[j + 1] = p, 1 - p
    return [str(v) for v in r]


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []

    def add(kind, n, fits, **k):
        d = dict(kind=kind, n=n, fits=fits, names=LABELS[len(cases) % len(LABELS)], est=bool(rng.rand() < .3), onehot=bool(rng.rand() < .3), dist="EMD", nb=0, method="full_probabilistic")
        d.update(k)
        if d["est"]:
            d["onehot"] = False
            d["est"] = d["est"] and all(len(f["train"]) == len(f["y"]) for f in fits)
        cases.append(d)

    for k, b, mt, me, take in ((3, 3, 2, 2, 120), (2, 2, 2, 3, 40), (3, 4, 1, 2, 80)):
        beh = chk.mc("Ordinal", dict(K=str(k), B=str(b), MaxTrain=str(mt), MaxTest=str(me)), ["Recovers", "CumulatedAlike", "Bounded", "Perfect", "Export"], emit=True)
        beh.sort(key=str)
        groups = {}
        for v in beh:
            groups.setdefault(str(v["table"]), []).append(v)
        keys = sorted(groups)
        for key in [keys[i] for i in sorted(rng.choice(len(keys), min(len(keys), chk.n(take, take * 8)), replace=False))]:
            g = groups[key]
            tab = g[0]["table"]
            y = [t + 1 for t in range(k) for j in range(b) for _ in range(tab[t][j])]
            pos = [j + 1 for t in range(k) for j in range(b) for _ in range(tab[t][j])]
            tests = [[j + 1 for j in range(b) for _ in range(g[i]["test"][j])] for i in sorted(rng.choice(len(g), min(len(g), 3), replace=False))]
            if b == k:
                add("counts", k, [dict(y=y, train=pos, tests=tests)])
            if k == 3:
                # bins b of positions between three classes: two per step
                nb = 2
                at = lambda j: [str(v) for v in [[Fraction(7, 8), Fraction(1, 8), 0], [Fraction(1, 4), Fraction(3, 4), 0], [0, 1, 0], [0, Fraction(1, 8), Fraction(7, 8)]][j - 1]]
                add("scores", 3, [dict(y=y, train=[at(p) for p in pos], tests=[[at(p) for p in t] for t in tests])], nb=nb, dist=["HD", "L1", "L2", "EMD"][rng.randint(4)],
                    method=["full_probabilistic", "winner_node"][rng.randint(2)])
    rows = {}
    for n, d, nb in ((3, 8, 3), (4, 4, 2), (5, 4, 4)):
        rows[n] = sorted(v["row"] for v in chk.mc("MCPosition", dict(K="1", B="1", MaxTrain="0", MaxTest="0", N=str(n), D=str(d), NB=str(nb)), ["InRange", "LeafAgrees", "OneBin", "PExport"], emit=True, spec="PSpec"))
    for i in range(chk.n(260, 2500)):
        kind = ["counts", "scores", "scores"][i % 3]
        n = int(rng.randint(2 if kind == "counts" else 3, 6))
        nb = int(rng.choice([1, 2, 4, 8, 3, 5]))
        if not exact_bins(n, nb):
            nb = 4
        method = ["full_probabilistic", "winner_node"][rng.randint(2)]
        fits = []
        for _ in range(rng.randint(1, 3)):
            m = n + int(rng.randint(0, 10) if i % 40 not in (7, 8, 9) else 90)       # now and then more examples
            y = [int(v) for v in rng.permutation(np.concatenate([np.arange(1, n + 1), rng.randint(1, n + 1, m - n)]))]
            r = int(rng.choice([1, 1, 2, 3])) if kind == "scores" or rng.rand() < .5 else 1

            def one(c=None):
                if kind == "counts":
                    return int(c if c and rng.rand() < .6 else rng.randint(1, n + 1))
                if method == "winner_node":
                    return leaf(rng, n, 16)
                if n in rows and rng.rand() < .3:
                    return list(rows[n][rng.randint(len(rows[n]))])
                return dyadic_rows(rng, 1, n, 16)[0]
            fits.append(dict(y=y, train=[one(y[j % m]) for j in range(m * r)], tests=[[one() for _ in range(rng.randint(1, 9) if i % 40 not in (8, 9, 10) else 110)] for _ in range(rng.randint(1, 4))]))
        add(kind, n, fits, nb=nb, method=method, dist="EMD" if kind == "counts" else ["HD", "L1", "L2", "EMD"][rng.randint(4)])
    # posteriors whose expected position exceeds the range by rounding
    tiny = str(Fraction(float(2 ** -44)))
    for dist in ("HD", "L1", "L2", "EMD"):
        for method in ("full_probabilistic",):
            edge = [["1", "0", "0"], ["0", "1", "0"], [tiny, "0", "1"], ["0", tiny, "1"]]
            add("scores", 3, [dict(y=[1, 2, 3, 3], train=edge, tests=[[edge[2]], [edge[3], edge[0]], [edge[1]]])], nb=2, dist=dist, method=method, est=False)
            low = [[str(1 - Fraction(tiny)), "0", "0"], ["0", "1", "0"], ["0", "0", "1"]]
            add("scores", 3, [dict(y=[1, 2, 3], train=low, tests=[[low[0]], [low[0], low[2]]])], nb=2, dist=dist, method=method, est=False)
    chk.validate("TraceOrdinal", chk.record(run, cases))
    return chk.finish(assumptions=["optimality is judged on a simplex grid and all small exchanges of mass; tolerances 1e-3 (HD, loose conic solver), 1e-4 (L1, EMD), 1e-6 (L2)",
                                   "winner-node rows hold two consecutive classes"])
