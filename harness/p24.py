"""P24: metrics."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *

VEC = ["l1", "mean_absolute_error", "l2", "mean_squared_error", "hd", "bray_curtis", "kld", "topsoe", "jensenshannon",
       "probsymmetric", "emd", "emd_score"]
SYM = ["l1", "mean_absolute_error", "l2", "mean_squared_error", "hd", "bray_curtis", "topsoe", "jensenshannon", "probsymmetric", "emd"]
BIN = ["binary_kld", "bias", "absolute_error", "squared_error", "relative_absolute_error",
       "symmetric_absolute_percentage_error", "normalized_absolute_score", "normalized_squared_score"]


def form(x, how):
    a = np.array(x, dtype=float)
    return {"list": list(x), "array": a, "column": a.reshape(-1, 1), "tuple": tuple(x)}[how]


def run(case):
    import quantificationlib.metrics.binary as B
    import quantificationlib.metrics.multiclass as MC
    import quantificationlib.metrics.ordinal as O
    fn = case["fn"]
    f = next(getattr(m, fn) for m in (MC, O, B) if hasattr(m, fn))
    ev = dict(ev="metric", new=True, fn=fn, valid=case.get("valid", True))
    with np.errstate(all="ignore"):
        if fn in VEC:
            kw = {"eps": case["eps"]} if "eps" in case else {}
            out, exc = call(f, form(case["p"], case["how"]), form(case["q"], case["how2"]), **kw)
            ev.update(p=V(case["p"]), q=V(case["q"]), how=case["how"] + "/" + case["how2"])
            if fn == "kld":
                ev["eps"] = R(case.get("eps", 1e-12))
        elif fn in BIN:
            kw = {"eps": case["eps"]} if "eps" in case else {}
            t = np.float64 if case["how"] == "numpy" else float
            out, exc = call(f, t(case["p"]), t(case["q"]), **kw)
            ev.update(p=R(case["p"]), q=R(case["q"]), eps=R(case.get("eps", 1e-12)), how=case["how"])
        elif fn == "geometric_mean":
            y, z = np.array(case["y"]), np.array(case["z"])
            lab = make_labels(case["names"], 5)
            kw = {"correction": case["corr"]} if case["corr"] else {}
            out, exc = call(f, lab[y], lab[z], **kw)
            ev.update(y=case["y"], z=case["z"], corr=R(case["corr"]))
        else:
            P, Q = np.array(case["P"]), np.array(case["Q"])
            out, exc = call(f, P, Q)
            ev.update(P=M(P), Q=M(Q))
    if exc:
        o = []
    elif fn == "emd_distances":
        o = M(out)
    else:
        o = V([out]) if np.ndim(out) == 0 else V(out)
    ev.update(out=o, exc=exc)
    return [ev]


def main(chk):
    for k, d in ((2, chk.n(8, 16)), (3, chk.n(5, 8)), (4, chk.n(3, 5))):
        chk.mc("Metrics", dict(K=str(k), D=str(d)), ["Symmetric", "ZeroIffSame", "Scores", "Gibbs", "JSIsHalfTopsoe"],
               properties=["Lipschitz"], spec=None)
    rng = np.random.RandomState(chk.seed)

    def dist(n):
        s = rng.randint(6)
        if s == 0:
            return [float(i == rng.randint(n)) for i in [0] * n] if False else np.eye(n)[rng.randint(n)].tolist()
        if s == 1:
            v = rng.dirichlet(np.ones(n))
            v[rng.randint(n)] = 0
            return (v / v.sum()).tolist()
        if s == 2:
            v = rng.multinomial(8, np.ones(n) / n) / 8
            return v.tolist()
        if s == 3:
            v = rng.dirichlet(np.ones(n) * .1)
            return v.tolist()
        return rng.dirichlet(np.ones(n)).tolist()

    cases = []
    for i in range(chk.n(250, 3000)):
        n = int(rng.randint(2, 8)) if i % 25 != 7 else int(rng.choice([16, 40, 101]))
        p, q = dist(n), dist(n)
        if i % 7 == 0:
            q = list(p)
        hows = ["list", "array", "column", "tuple"]
        for fn in VEC:
            h = [hows[rng.randint(4)], hows[rng.randint(4)]]
            c = dict(fn=fn, p=p, q=q, how=h[0], how2=h[1])
            if fn == "kld" and rng.rand() < .3:
                c["eps"] = float(rng.choice([1e-6, 1e-3, 1e-12]))
            cases.append(c)
            if rng.rand() < .05:
                bad = dist(int(rng.choice([m for m in range(1, 9) if m != n])))
                cases.append(dict(c, q=bad, valid=False, how2=["list", "array", "column"][rng.randint(3)]))
        s = lambda: float(rng.choice([0, 1, .5, .25, rng.rand(), rng.rand(), rng.rand() ** 6]))
        a, b = s(), s()
        if i % 7 == 0:
            b = a
        for fn in BIN:
            c = dict(fn=fn, p=a, q=b, how=["float", "numpy"][rng.randint(2)])
            if fn in ("binary_kld", "relative_absolute_error") and rng.rand() < .3:
                c["eps"] = float(rng.choice([1e-6, 1e-3]))
            cases.append(c)
        r, s2 = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        cases.append(dict(fn="emd_distances", P=[dist(n) for _ in range(r)], Q=[dist(n) for _ in range(s2)]))
        cases.append(dict(fn="brier_multi", P=np.eye(n)[rng.randint(0, n, r)].tolist(), Q=[dist(n) for _ in range(r)]))
        if rng.rand() < .2:
            cases.append(dict(fn="emd_distances", P=[dist(n)], Q=[dist(n + 1)], valid=False))
        m = int(rng.choice([1, 2, 5, 12])) if i % 25 != 3 else int(rng.choice([300, 1001]))
        y = rng.choice(rng.choice(5, rng.randint(1, 6), replace=False), m)
        z = np.where(rng.rand(m) < rng.choice([.2, .6, 1]), y, rng.choice(5, m))
        cases.append(dict(fn="geometric_mean", y=y.tolist(), z=z.tolist(), names=LABELS[rng.randint(len(LABELS))],
                          corr=float(rng.choice([0, 0, .001, .25]))))
    chk.validate("TraceMetrics", chk.record(run, cases))
    return chk.finish(assumptions=["0 log 0 is 0, as usual for divergences"])
