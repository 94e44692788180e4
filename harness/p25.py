"""P25: search and solvers."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *


class PWL:
    def __init__(self, xs, ys):
        self.xs, self.ys = [float(F(x)) for x in xs], [float(F(y)) for y in ys]

    def mixture(self, prevalence=None, **kw):
        return np.array([prevalence, 1 - prevalence])

    def loss(self, mixture, test):
        return np.interp(mixture[0], self.xs, self.ys) + 0 * test[0]


def run(case):
    kind = case["kind"]
    if kind in ("global", "golden"):
        from quantificationlib.search import global_search, golden_section_search
        f = PWL(case["xs"], case["ys"])
        evs = []
        if kind == "golden":
            lo, hi = float(F(case["lo"])), float(F(case["hi"]))
            r, exc = call(golden_section_search, f.loss, f.mixture, np.zeros(1), case["tol"], lo, hi)
            l, p = r if not exc else (None, None)
            return [dict(ev="golden", new=True, kind=kind, xs=case["xs"], ys=case["ys"], lo=case["lo"], hi=case["hi"], tol=R(case["tol"]),
                         out=V(p) if not exc else [], floss=R(l), exc=exc)]
        mixtures = None
        for rep in range(2 if case["mode"] == "cached" else 1):
            ret = case["mode"] != "plain"
            r, exc = call(global_search, f.loss, f.mixture, np.zeros(1), case["tol"], mixtures, ret)
            p = None
            if not exc:
                mixtures, p = r
            evs.append(dict(ev="global", new=rep == 0, kind=kind, xs=case["xs"], ys=case["ys"], lo="0", hi="1", tol=R(case["tol"]),
                            mode=case["mode"], rep=rep, out=V(p) if not exc else [], exc=exc))
        return evs
    import quantificationlib.optimization as O
    evs = []
    if kind == "ED":
        # one-dimensional samples per class, absolute differences
        D = {c: np.array([float(F(x)) for x in s]).reshape(-1, 1) for c, s in enumerate(case["train"])}
        dist = lambda a, b: np.abs(a - b.T)
        classes = np.arange(len(case["train"]))
        ni = np.array([len(s) for s in case["train"]]).reshape(-1, 1)
        n = len(classes)
        r, exc = call(O.compute_ed_param_train, dist, D, classes, ni)
        md = lambda a, b: sum(abs(F(x) - F(y)) for x in a for y in b) / (len(a) * len(b))
        K = [[R(md(a, b)) for b in case["train"]] for a in case["train"]]
        for k, t in enumerate(case["tests"]):
            if not exc:
                Km, G, C, b = r
                T = np.array([float(F(x)) for x in t]).reshape(-1, 1)
                a, exc = call(O.compute_ed_param_test, dist, D, T, Km, classes, ni)
                out, exc = call(O.solve_ed, G, a, C, b) if not exc else (None, exc)
            evs.append(dict(ev="solve", new=k == 0, kind=kind, n=n, K=K, Kt=[R(md(a, t)) for a in case["train"]],
                            out=V(out) if not exc else [], exc=exc))
        return evs
    Mx = fl(case["M"])
    n = Mx.shape[1]
    problem = None
    for k, t in enumerate(case["ts"]):
        tv = np.array([float(F(x)) for x in t])
        tt = tv.reshape(-1, 1) if case["col"] else tv
        if kind == "L2":
            def go():
                G, C, b = O.compute_l2_param_train(Mx, np.arange(n))
                return None, O.solve_l2(Mx, tt, G, C, b)
            r, exc = call(go)
        elif kind == "L1":
            r, exc = call(O.solve_l1, Mx, tt, n, problem=problem)
        else:
            r, exc = call(O.solve_hd, Mx, tt, n, problem=problem)
        out = None
        if not exc:
            problem, out = r
        evs.append(dict(ev="solve", new=k == 0, kind=kind, n=n, M=case["M"], t=t, step=k, out=V(out) if not exc else [], exc=exc))
        if k == 1 and case.get("fresh"):
            problem = None
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    n = chk.n(6, 7)
    beh = chk.mc("Search", dict(N=str(n), Levels="{0, 1, 2}" if chk.quick else "{0, 1, 2, 3}"), ["Bracketed", "LocalSuffice", "Export"], emit=True)
    if len(beh) > 3000:
        beh = [beh[i] for i in sorted(rng.choice(len(beh), 3000, replace=False))]
    for i, b in enumerate(beh):
        xs = [str(Fraction(k, n - 1)) for k in range(n)]
        cases.append(dict(kind="global", xs=xs, ys=[str(v) for v in b["loss"]], tol=[1e-8, 1e-4][i % 2], mode=["plain", "cached", "return"][i % 3]))
    for i in range(chk.n(500, 5000)):
        # knots at least 0.03 apart
        m = int(rng.choice([2, 3, 5, 9, 17]))
        while True:
            xs = np.unique(np.concatenate([[0, 256], rng.choice(257, m)]))
            if np.all(np.diff(xs) >= 8):
                break
            m = max(0, m - 1)
        xs = [Fraction(int(x), 256) for x in xs]
        s = rng.randint(3)
        if s == 0:
            ys = [Fraction(int(v), 16) for v in rng.randint(0, 33, len(xs))]
        elif s == 1:       # a staircase with plateaus
            ys = [Fraction(int(v), 2) for v in np.repeat(rng.randint(0, 4, len(xs)), 2)[:len(xs)]]
        else:              # unimodal
            j = rng.randint(len(xs))
            st = rng.randint(1, 9, len(xs))
            ys = [Fraction(0)] * len(xs)
            for k in range(j - 1, -1, -1):
                ys[k] = ys[k + 1] + Fraction(int(st[k]), 8)
            for k in range(j + 1, len(xs)):
                ys[k] = ys[k - 1] + Fraction(int(st[k]), 8)
            lo, hi = [(Fraction(0), Fraction(1)), (Fraction(1, 4), Fraction(3, 4)), (xs[j], min(Fraction(1), xs[j] + Fraction(1, 8)) if j < len(xs) - 1 else Fraction(1)), (Fraction(0), Fraction(1, 50))][rng.randint(4)]
            if lo < hi:
                cases.append(dict(kind="golden", xs=list(map(str, xs)), ys=list(map(str, ys)), lo=str(lo), hi=str(hi), tol=float(rng.choice([1e-8, 1e-6, 1e-3]))))
        cases.append(dict(kind="global", xs=list(map(str, xs)), ys=list(map(str, ys)), tol=float(rng.choice([1e-8, 1e-5])), mode=["plain", "cached", "return"][rng.randint(3)]))
    for i in range(chk.n(400, 4000)):
        n = int(rng.randint(2, 5))
        kind = ["L1", "L2", "HD"][i % 3]
        bins = int(rng.choice([2, 3, 4, 8, 10])) if i % 25 not in (3, 4, 5) else int(rng.choice([24, 60]))
        den = 64
        cols = dyadic_rows(rng, n, bins, den)
        s = rng.randint(5)
        if s == 0:
            cols[1] = list(cols[0])
        ts = []
        for _ in range(3):
            if rng.rand() < .4:
                w = [F(x) for x in dyadic_rows(rng, 1, n, 16)[0]]
                ts.append([str(sum(w[k] * F(cols[k][j]) for k in range(n))) for j in range(bins)])
            else:
                ts.append(dyadic_rows(rng, 1, bins, den)[0])
        cases.append(dict(kind=kind, M=[[cols[k][j] for k in range(n)] for j in range(bins)], ts=ts, col=bool(rng.randint(2)), fresh=bool(rng.randint(2))))
    for i in range(chk.n(150, 1500)):
        n = int(rng.randint(2, 5))
        smp = lambda: [str(Fraction(int(x), 16)) for x in np.clip(rng.normal(rng.randint(0, 33), rng.choice([1, 4, 12]), rng.choice([1, 2, 5, 9])), -64, 64).astype(int)]
        tr = [smp() for _ in range(n)]
        if i % 6 == 0:
            tr[1] = list(tr[0])
        cases.append(dict(kind="ED", train=tr, tests=[smp() for _ in range(2)] + [tr[0]]))
    chk.validate("TraceSearch", chk.record(run, cases))
    return chk.finish(assumptions=["losses have no dips narrower than the search's 0.01 grid", "a constant loss may be refused with ValueError",
                                   "Hellinger optimum up to 1e-3 in the objective: the library runs its conic solver with loose tolerances"])
