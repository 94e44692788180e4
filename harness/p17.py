"""P17: combination of the members' answers."""
import numpy as np
from core import *
from gen import *
from p16 import given


def each(rng, m, nq, k):
    """probabilities of nq models for m positions whose average over the models is exact in floating point"""
    b = rng.multinomial(16, rng.dirichlet(np.ones(k)), m) / 16.
    T = np.repeat(b[:, None, :], nq, axis=1)
    for t in T:
        o = rng.permutation(nq)
        for i, j in zip(o[0::2], o[1::2]):
            u, v = rng.choice(k, 2, replace=False)
            e = rng.randint(0, int(min(t[i, u], t[i, v]) * 16) + 1) / 16.
            t[i, u] += e
            t[i, v] -= e
            t[j, u] -= e
            t[j, v] += e
    return T


def run(case):
    from quantificationlib.ensembles.eoq import EoQ
    from stubs import RecX, RecY
    rng = np.random.RandomState(case["seed"])
    k, nq, kind = case["k"], case["nq"], case["kind"]
    cls = make_labels(case["names"], k)
    n, size, r, m = case["n"], case["size"], case["r"], case["m"]
    y1 = rng.permutation(np.concatenate([np.arange(k), rng.randint(0, k, n - k)]))
    y = cls[y1]
    # bags that differ in what they look like
    bags = np.column_stack([rng.choice(np.argsort(rng.randn(n) * 3 + rng.randn() * np.arange(n) / n)[:max(2, n // 2)], size) for _ in range(nq)])
    prev = np.array([[np.mean(y[bags[:, i]] == c) for i in range(nq)] for c in cls])
    shape, tshape = case["shape"], case["tshape"]
    if kind == "X":
        d = case["d"]
        X = np.round(rng.randn(n, d) * 4 + y1[:, None]) / 8
        Z = X[bags[rng.randint(0, size, m), rng.randint(nq)]] if rng.rand() < .7 else np.round(rng.randn(m, d) * 8) / 8
        if case["const"]:
            X[:, 0] = 1
        T, Tt = X, Z
    else:
        X, Z = np.arange(n, dtype=float).reshape(-1, 1), np.arange(m, dtype=float).reshape(-1, 1)
        T, Tt = [each(rng, w, nq, k) if sh == "each" else given(rng, sh, False, w, nq, cls) for w, sh in ((n * r, shape), (m, tshape))]
        if shape == tshape and rng.rand() < .6:
            Tt = T[bags[rng.randint(0, size, m), rng.randint(nq)]]
    q = EoQ(base_quantifier=RecX() if kind == "X" else RecY(probabilistic=kind == "Y"), n_quantifiers=nq, combination_strategy=case["strategy"], distribution_function="CDF" if case["cdf"] else "PDF",
            n_bins=case["nb"], bin_strategy=case["strat"], distance_bags=case["metric"], **({} if case["f"] is None else dict(percentage_of_selected_models=float(F(case["f"])))))
    evs = []
    kw = {} if kind == "X" else dict(predictions_train=T)
    _, exc = call(q.fit, X, y, prevalences=prev, indexes=bags, **kw)
    for j in range(2):
        if case["pool"]:
            ps = [case["pool"][rng.randint(len(case["pool"]))] for _ in range(nq)]
        else:
            ps = case["ps"] if j == 0 else case["ps"][::-1]
        ev = dict(ev="answer", new=not evs, kind=kind, n=k, ps=ps, strategy=case["strategy"], f=R(float(F(case["f"]))) if case["f"] is not None else "1/2", strat=case["strat"], nb=case["nb"], cdf=case["cdf"],
                  metric=case["metric"], probs=kind != "X", shape=shape, tshape=tshape, r=r, y=[int(v) + 1 for v in y1], bags=[[int(v) + 1 for v in c] for c in bags.T],
                  rows=[], trows=[], cuts=[], outs=[], out=[], exc=exc)
        if not exc:
            for p, mm in zip(ps, q.quantifiers_):
                mm.answer = [float(F(v)) for v in p]
            out, exc = call(q.predict, Z, **({} if kind == "X" else dict(predictions_test=Tt)))
            ev["exc"] = exc
        if case["strategy"] in ("all", "distribution_similarity"):
            nest = lambda a: [nest(b) for b in a] if isinstance(a, list) else R(a)
            ev["rows"], ev["trows"] = nest(T.tolist()), nest(Tt.tolist())
            if not ev["exc"]:
                ev["cuts"] = [c[1:-1] for c in M(q.bincuts_)]
        if not ev["exc"]:
            if case["strategy"] == "all":
                ev["outs"] = [V(out[s]) for s in ("mean", "median", "prevalence_similarity", "distribution_similarity")] if isinstance(out, dict) else [[]] * 4
                ev["out"] = V(out["all"]) if isinstance(out, dict) else []
            else:
                ev["out"] = V(out)
        evs.append(ev)
        if ev["exc"]:
            break
        rng.rand()
        Z = Z if j else Z[:max(1, m // 2)]
        if kind != "X":
            Tt = Tt if j else Tt[:max(1, m // 2)]
        else:
            Tt = Z
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    S = ["mean", "median", "prevalence_similarity", "distribution_similarity", "all"]
    FR = ["0", "1/4", "1/2", "3/4", "1", None, "3/10", "7/10"]

    def add(**c):
        i = len(cases)
        k = c["k"]
        kind = ["X", "Y", "Yc"][rng.randint(3)]
        nq = c["nq"]
        strat = ["equal_width", "equal_width", "equal_count", "normal", "binormal"][rng.randint(5 if k == 2 else 4)]
        d = dict(kind=kind, seed=int(rng.randint(10 ** 6)), names=LABELS[i % len(LABELS)], n=int(rng.randint(max(6, k), 15)), size=int(rng.randint(2, 13)), m=int(rng.randint(1, 8)),
                 r=int(rng.randint(1, 4)) if kind != "X" and rng.rand() < .4 else 1, shape="one", tshape="one", d=int(rng.randint(1, 4)), const=bool(rng.rand() < .1), strategy=S[i % 5], f=FR[rng.randint(len(FR))],
                 nb=int(rng.choice([2, 3, 4, 8])), strat=strat, cdf=bool(rng.rand() < .4), metric=["euclidean", "euclidean", "cityblock", "chebyshev", "sqeuclidean"][rng.randint(5)], pool=None, ps=None)
        if kind != "X" and rng.rand() < .4:
            d["shape"] = d["tshape"] = "each"
            if rng.rand() < .2:
                d["tshape"] = "one"
        d.update(c)
        cases.append(d)

    for k, den, mem, take in ((2, 4, 3, 125), (2, 2, 4, 81), (3, 2, 3, 216), (3, 1, 4, 81), (2, 3, 1, 4)):
        beh = chk.mc("MCCombine", dict(K=str(k), D=str(den), Members=str(mem)), ["Distributions", "Unanimous", "Everything", "Closest", "Export"], emit=True)
        beh.sort(key=str)
        for j in sorted(rng.choice(len(beh), min(take, len(beh)), replace=False)):
            for _ in range(chk.n(1, 4)):
                add(k=k, nq=mem, ps=beh[j]["ps"])
    for i in range(chk.n(250, 2500)):
        k = int(rng.randint(2, 5)) if i % 40 != 7 else 7          # now and then more classes or members
        nq = int(rng.randint(1, 7)) if i % 40 not in (7, 9) else int(rng.choice([8, 10]))
        pool = dyadic_rows(rng, int(rng.choice([3, 8])), k, int(rng.choice([4, 64])))
        add(k=k, nq=nq, pool=pool)
    chk.validate("TraceCombine", chk.record(run, cases))
    return chk.finish(assumptions=["the selected fraction is rounded to a whole number of members, at least one; half-way cases to either side",
                                   "members whose distances differ by at most 1e-9 may be selected in either order",
                                   "when all medians are zero the median strategy answers the mean",
                                   "the bins' cut points are the fitted ones (checked against the selected strategy)"])
