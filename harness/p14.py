"""P14: reproducible, frozen, shareable bags."""
import hashlib, random
import numpy as np
from core import *
from gen import *
from p13 import GENS

SETTINGS = [("prior", {}), ("prior", dict(method="Dirichlet", alphas=1.5)), ("prior", dict(method="Dirichlet")), ("prior", dict(method="Dirichlet", alphas=[.5, 2., 1.])),
            ("prior", dict(min_prevalence=.1)), ("prior", dict(min_prevalence=[.1, .2, 0.])), ("covariate", {}), ("both", {}), ("both", dict(method="Dirichlet", alphas=3.)), ("prior", dict(bag_size=9))]


def data(k):
    r = np.random.RandomState(k)
    n = [30, 44, 61][k % 3]
    y = np.repeat([0, 1, 2], [n // 3, n // 4, n - n // 3 - n // 4])
    return r.randn(n, 2) + y[:, None], r.permutation(y)


def digest(prev, idx):
    p, i = np.asarray(prev, dtype=float), np.asarray(idx).astype(np.int64)
    return hashlib.sha1(repr((p.shape, i.shape)).encode() + np.ascontiguousarray(p).tobytes() + np.ascontiguousarray(i).tobytes()).hexdigest()


def answer(p):
    if isinstance(p, dict):
        return sorted((k, answer(v)) for k, v in p.items())
    return [("%.9f" % v) if np.isfinite(v) else "nan" for v in np.asarray(p, dtype=float).reshape(-1)]


def disturb(rng):
    k = rng.randint(4)
    if k == 0:
        np.random.rand(rng.randint(1, 50))
    elif k == 1:
        np.random.seed(rng.randint(1000))
    elif k == 2:
        random.random()
        np.random.shuffle(np.arange(7))
    else:
        np.random.set_state(np.random.RandomState(rng.randint(1000)).get_state())


def run(case):
    import quantificationlib.bag_generator as B
    rng = np.random.RandomState(case["k"])
    if case["kind"] == "bags":
        gens, evs = {}, []
        shared = np.random.RandomState(case["seeds"][0])
        for h in case["hist"]:
            if h[0] == "noise":
                disturb(rng)
                continue
            g, d = h[1], case["datas"][h[2] - 1]
            sk = case["settings"][g - 1]
            seed, rnd = case["seeds"][g - 1], case["rnd"]
            if g not in gens:
                name, kw = SETTINGS[sk]
                rs = {"int": seed, "npint": np.int64(seed), "rs": np.random.RandomState(seed), "shared": shared}[rnd]
                gens[g] = getattr(B, GENS[name])(**{"n_bags": 5, "bag_size": None, **kw, "random_state": rs})
            X, y = data(d)
            r, exc = call(gens[g].generate_bags, X, y)
            dg = digest(*r) if not exc else ""
            evs.append(dict(ev="request", new=not evs, g=g, setting=sk, rnd={"npint": "int"}.get(rnd, rnd), seed=seed, d=d, bags=dg, exc=exc))
            if case.get("scribble") and not exc:
                pass
            if case["consume"]:
                from quantificationlib.ensembles.eoq import EoQ
                from quantificationlib.multiclass.energy import EDX
                q = EoQ(base_quantifier=EDX(), n_quantifiers=5, bag_generator=gens[g])
                first = next(e["d"] for e in evs if e["g"] == g)
                X1, y1 = data(first)
                _, exc = call(q.fit, X1, y1)
                evs.append(dict(ev="consume", new=False, g=g, kind="EoQ", d=first, bags=digest(q.prevalences_, q.indexes_) if not exc else "", exc=exc))
        return evs
    # quantifiers with the default generator
    from quantificationlib.ensembles.eoq import EoQ
    from quantificationlib.multiclass.regression import REGX, REGy
    from quantificationlib.baselines.cc import PCC
    from quantificationlib.multiclass.energy import EDX
    from sklearn.linear_model import LinearRegression

    def new(kind, ref):
        kw = dict(bag_generator=B.PriorShift_BagGenerator(min_prevalence=1 / len(y) if kind[:3] == "EoQ" else None)) if ref else {}
        if kind == "EoQX":
            return EoQ(base_quantifier=EDX(), n_quantifiers=4, **kw)
        if kind == "EoQy":
            return EoQ(base_quantifier=PCC(), n_quantifiers=4, **kw)
        return {"REGX": REGX, "REGy": REGy}[kind](regression_estimator=LinearRegression(), **kw)

    evs, objs = [], {}
    for i, (op, o, d) in enumerate(case["ops"]):
        kind = case["q"]
        if op == "noise":
            disturb(rng)
            continue
        X, y = data(d)
        q = new(kind, op == "ref") if op == "ref" or o not in objs else objs[o]
        if op != "ref":
            objs[o] = q
        Xt, _ = data(d + 3)
        b = i % 2
        Xt = Xt[:12] if b else Xt[12:]
        P = lambda Z: np.exp(Z @ np.array([[1., 0, -1], [0, 1., 1]])) / np.exp(Z @ np.array([[1., 0, -1], [0, 1., 1]])).sum(axis=1, keepdims=True)
        if kind in ("EoQX", "REGX"):
            out, exc = call(lambda: (q.fit(X, y), q.predict(Xt))[1])
        else:
            out, exc = call(lambda: (q.fit(X, y, predictions_train=P(X)), q.predict(Xt, predictions_test=P(Xt)))[1])
        evs.append(dict(ev="default", new=not evs, kind=kind, ref=op == "ref", d=d, b=b, out=answer(out) if not exc else [], exc=exc))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    beh = chk.mc("MCBagSharing", {"Gens": "{1, 2, 3}", "Setting": "<- S3", "Seed": "<- K3", "Datas": "{1, 2}", "Depth": str(chk.n(5, 6))},
                 ["Reproducible", "Export"], properties=["Frozen"], spec="Spec", emit=True)
    beh = [b["hist"] for b in beh if sum(h[0] == "request" for h in b["hist"]) >= 3]
    beh.sort(key=str)
    for i in sorted(rng.choice(len(beh), chk.n(1200, 9000), replace=False)):
        sk = int(rng.randint(len(SETTINGS)))
        s2 = sk if rng.rand() < .8 else int(rng.randint(len(SETTINGS)))
        a, b = [int(v) for v in rng.choice(1000, 2, replace=False)]
        if rng.rand() < .15:
            a, b = 0, 1
        ds = [int(v) for v in rng.choice(6, 2, replace=False)]
        cases.append(dict(kind="bags", k=int(rng.randint(10 ** 6)), hist=beh[i], settings=[sk, sk, s2], seeds=[a, a, b], datas=ds,
                          rnd=["int", "int", "int", "npint", "rs", "shared"][rng.randint(6)], consume=bool(rng.rand() < .1)))
    for i in range(chk.n(40, 300)):
        kind = ["EoQX", "EoQy", "REGX", "REGy"][i % 4]
        ds = [int(v) for v in rng.choice(3, 2, replace=False)]
        ops = []
        for d in ds:
            ops += [("ref", 0, d), ("ref", 0, d)]
        for _ in range(5):
            ops.append((["fit", "fit", "noise"][rng.randint(3)], int(rng.randint(1, 3)), ds[rng.randint(2)]))
        cases.append(dict(kind="default", k=i, q=kind, ops=ops))
    chk.validate("TraceBagSharing", chk.record(run, cases))
    return chk.finish(assumptions=["bags are compared by digest of indexes and prevalences; default quantifiers by their answers to nine decimals",
                                   "a refitted default quantifier draws new bags from the new data; a quantifier given a generator keeps that generator's frozen bags"])
