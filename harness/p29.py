"""P29: only proportions matter: not how often the data are repeated, nor the units and the order of features."""
import numpy as np
from core import *
from gen import LABELS, make_labels
import zoo
from p06 import rows


def tolerance(cfg):
    if cfg["kind"] in ("SORDy", "QUANTy"):
        return "1/2000"
    if cfg.get("binary") or cfg.get("distance") == "HD" or cfg["kind"] in ("HDy", "HDX") or cfg["kind"] in ("DFy", "DFX") and "distance" not in cfg:
        return "1/10000"
    return "1/1000000"


def run(case):
    cfg, n = case["cfg"], case["n"]
    rl = zoo.role(cfg)[0]
    rng = np.random.RandomState(case["seed"])
    d = int(rng.randint(1, 4))
    s = rng.randint(3, 8, n) + rng.randint(0, 2) * rng.randint(0, 9, n)
    y = rng.permutation(np.repeat(np.arange(1, n + 1), s))
    X = zoo.ordered(rng, n, s, d)[0]
    cen = np.array([[3 * (c + 1) * (1 if j % 2 == 0 else -1) * (c % 2 + 1) for j in range(d)] for c in range(n)])
    jit = lambda m: rng.randint(-97, 98, (m, d)) / 1024.
    if cfg["kind"] == "PWKQ":
        jit = lambda m: rng.uniform(-.1, .1, (m, d))
    put = lambda z: (cen[z - 1] + rng.randint(-6, 7, (len(z), d))) / 8. + jit(len(z))
    sharp = rng.choice([.3, .5, .7])
    X, P = put(y), rows(rng, y, n, sharp)
    z = rng.randint(1, n + 1, rng.choice([1, 4, 9, 16]))
    Z, Q = put(z), rows(rng, z, n, sharp)
    if cfg.get("base", cfg)["kind"] == "SORDy":          # its criterion has plateaus, but not for a bag that the classes explain
        k = rng.randint(1, 4, n) if "base" not in cfg else np.full(n, rng.randint(1, 4))
        ix = rng.permutation(np.concatenate([np.tile(np.where(y == c + 1)[0], k[c]) for c in range(n)]))
        z, Z, Q = y[ix], X[ix], P[ix]
    if case["seed"] % 3 == 0 and rl != "X":             # ties of posteriors
        P, Q = np.round(P * 8) / 8, np.round(Q * 8) / 8
        P[np.arange(len(y)), y - 1] += 1 - P.sum(axis=1)
        Q[np.arange(len(z)), z - 1] += 1 - Q.sum(axis=1)
    given = case["via"] == "given" and rl not in ("X", "tree")
    if rl == "crisp":
        P, Q = P.argmax(axis=1), Q.argmax(axis=1)
    elif rl == "fh":
        P, Q = P.cumsum(axis=1)[:, :-1], Q.cumsum(axis=1)[:, :-1]
    lab = make_labels(case["names"], n)
    if rl == "crisp":
        P, Q = lab[P], lab[Q]
    train, bag, scale, shift, cols = np.arange(len(y)), np.arange(len(z)), 1., np.zeros(d), np.arange(d)

    def ask():
        f = lambda A: ((A * scale + shift)[:, cols]).copy()
        x, t, yy = f(X[train]), f(Z[bag]), lab[y[train] - 1]
        if not given:
            e = lambda: zoo.estimator(rl) if rl not in ("X", "tree") else None
            q = zoo.make(cfg, e(), e()) if rl != "tree" else zoo.make(cfg, None, zoo.Cls())
            zoo.fit(q, cfg, x, yy)
            return zoo.predict(q, cfg, t)
        q = zoo.make(cfg)
        zoo.fit(q, cfg, x, yy, P[train])
        return zoo.predict(q, cfg, t, Q[bag])
    evs = []
    more = dict(kind=cfg["kind"], n=n, strat=cfg.get("strat", cfg.get("base", {}).get("strat", "")), tol=tolerance(cfg.get("base", cfg)))
    search = str(cfg.get("base", cfg).get("distance"))[:2] in ("fl", "fh", "ft", "pl")
    out, exc = call(ask, limit=100)
    if exc.startswith("ValueError") and search:          # the loss is the same for every prevalence
        return []
    evs.append(dict(more, ev="base", new=True, op="", by=0, cfg={k: str(v) for k, v in cfg.items()}, seed=case["seed"], via=case["via"], names=case["names"], exc=exc, out=V(out) if not exc else []))
    if exc:
        return evs
    for op in case["ops"]:
        o, k = op["op"], op["by"]
        if case.get("large") and o in ("train", "bag") and len(train if o == "train" else bag) < 500:
            k *= 50
        if o in ("scale", "shift", "features") and rl != "X" or o == "features" and search:      # the last digits of flat losses change with the order of features
            continue
        if o == "train":
            train = np.tile(train, k) if rng.rand() < .5 else np.repeat(train, k)
        elif o == "bag":
            bag = np.tile(bag, k) if rng.rand() < .5 else np.repeat(bag, k)
        elif o == "scale":
            scale = scale * (2. ** k if rng.rand() < .5 else .5 ** k)
        elif o == "shift":
            shift[rng.randint(d)] += scale * rng.randint(-9, 10)
        else:
            cols = rng.permutation(d)
        out, exc = call(ask, limit=100)
        evs.append(dict(more, ev="step", new=False, op=o, by=k, exc=exc, out=V(out) if not exc else []))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    inv = ["BinnedStays", "EnergyStays", "RankedStays"]
    for N, t, b, top, bins, dep in chk.n(((2, 3, 2, 3, 3, 2), (3, 3, 1, 2, 2, 2)), ((2, 3, 2, 3, 3, 3), (2, 4, 2, 3, 2, 2), (3, 4, 1, 2, 2, 2), (2, 3, 3, 3, 3, 2))):
        chk.mc("MCProportion", dict(N=str(N), Train=str(t), Bag=str(b), Top=str(top), Bins=str(bins), Den="4", Times="{2, 3}", Depth=str(dep), Judge="TRUE"), inv, view="View")
    beh = chk.mc("MCProportion", dict(N="2", Train="2", Bag="1", Top="1", Bins="2", Den="2", Times="{2, 3}", Depth="3", Judge="FALSE"), ["Export"], emit=True)
    beh.sort(key=str)
    cases = []
    for n in (2, 3, 4):
        cfgs = [z for z in zoo.settings() if z != dict(kind="QUANTy", distance="pl1") and not z.get("multi" if n == 2 else "binary")]
        for i in range(chk.n(len(cfgs) * (3 if n < 4 else 1), len(cfgs) * (20 if n < 4 else 8))):
            cases.append(dict(cfg=cfgs[i % len(cfgs)], n=n, ops=beh[int(rng.randint(len(beh)))], large=bool(rng.rand() < .15 and cfgs[i % len(cfgs)]["kind"] not in ("EoQ", "EoQX", "EoQc", "PWKQ", "REGX", "REGy", "SORDy", "QUANTy")), names=LABELS[i % len(LABELS)], seed=int(rng.randint(10 ** 6)), via="given" if rng.rand() < .7 else "estimator"))
    chk.validate("TraceProportion", chk.record(run, cases))
    return chk.finish(assumptions=["equal_count cut points are positions among the sorted examples: repetitions of the training set are not judged with them"])
