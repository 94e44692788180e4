"""P06: the order of examples and the names of classes do not matter."""
import numpy as np
from core import *
from gen import make_labels
import zoo, protocol

NAMES = ("int0", "int1", "neg", "str", "gap", "npstr", "int8", "digits", "bool", "far", "uint")
MOVES = ("CC", "PCC", "AC", "PAC", "EM", "EDy", "EDX", "CvMy", "FriedmanME", "DFy", "DFX", "HDy", "HDX", "MMy")


def names(kind, n):
    if kind == "digits":
        return np.array(["1", "10", "2", "21", "3", "30"][:n])
    if kind == "far":
        return np.array([-10 ** 6, 0, 10 ** 6, 10 ** 9][:n])
    if kind == "uint":
        return np.array([1, 3, 200, 255][:n], dtype=np.uint8)
    if kind == "bool" and n == 2:
        return np.array([False, True])
    return make_labels("int0" if kind == "bool" else kind, n)


def block(order, op):
    """the arrangement of four blocks (or of all) of the examples"""
    if op["how"] == "turn":
        return order[::-1]
    b = np.array_split(order, 4)
    b[op["i"] - 1], b[op["j"] - 1] = b[op["j"] - 1], b[op["i"] - 1]
    return np.concatenate(b)


def rows(rng, y, n, sharp):
    """posteriors in odd multiples of 1/256 (no value on an edge of bins or on a threshold), no ties"""
    out = []
    while len(out) < len(y):
        c = y[len(out)] - 1
        w = rng.dirichlet(np.ones(n) * 2) * (1 - sharp)
        w[c] += sharp
        k = np.maximum(1, np.round(w * 128).astype(int)) * 2 + (1 if n % 2 == 0 else 0)
        r = k / 256.
        r[c] += 1 - r.sum()
        if r.min() > 0 and len(set(r)) == n and (n % 2 or (r * 256 % 2 == 1).all()):
            out.append(r)
    return np.array(out)


def describe(q, cfg, n, A, y):
    """descriptions of the classes: rows (A: what the classifier says of the training examples)"""
    if cfg["kind"] in ("AC", "PAC"):
        A = np.eye(n)[A] if A.ndim == 1 else A
        d = np.array([A[y == c].mean(axis=0) for c in range(1, n + 1)])
    elif cfg["kind"] in ("DFy", "DFX", "HDy", "HDX", "MMy", "FriedmanME"):
        d = np.asarray(q.train_distrib_, dtype=float)
        d = d.reshape(-1, d.shape[-1])
        d = d.T if d.shape[1] == n else d
        t = np.asarray(q.test_distrib_, dtype=float).ravel()
        if cfg.get("distance") not in ("L2", "fl2", "pl2", "L1", "fl1", "pl1") and cfg["kind"] != "MMy" and t.size == d.shape[1]:
            d = d[:, t > 0]                 # the Hellinger distance looks at the bins of the bag only
            d = d if d.shape[1] else np.zeros((n, 1))
    else:
        return []
    return M(d)


def run(case):
    cfg, n = case["cfg"], case["n"]
    rl = zoo.role(cfg)[0]
    rng = np.random.RandomState(case["seed"])
    draws = cfg["kind"] in zoo.SAMPLING
    d = int(rng.randint(1, 4))
    s = rng.randint(3, 8, n) + rng.randint(0, 2) * rng.randint(0, 9, n)
    y = rng.permutation(np.repeat(np.arange(1, n + 1), s))
    X = zoo.ordered(rng, n, s, d)[0]
    cen = np.array([[3 * (c + 1) * (1 if j % 2 == 0 else -1) * (c % 2 + 1) for j in range(d)] for c in range(n)])
    jit = lambda m: rng.uniform(-.1, .1, (m, d)) if cfg["kind"] == "PWKQ" else rng.randint(-97, 98, (m, d)) / 1024.          # no ties of values or of distances
    put = lambda z: (cen[z - 1] + rng.randint(-6, 7, (len(z), d))) / 8. + jit(len(z))
    sharp = rng.choice([.3, .5, .7])
    X, P = put(y), rows(rng, y, n, sharp)
    coarse = case["seed"] % 5 < 2 and cfg["kind"] != "PWKQ"       # many ties: only arrangements and names are judged
    if coarse:
        put = lambda z: np.round((cen[z - 1] + rng.randint(-6, 7, (len(z), d))) / 8.)
        X, P = put(y), np.round(P * 8) / 8
        P[np.arange(len(y)), y - 1] += 1 - P.sum(axis=1)
    base = cfg.get("base", cfg)
    tight = base.get("distance") in ("L1", "fl1", "pl1") or base["kind"] == "SORDy"     # losses with flat bottoms
    if tight and (rng.rand() < .8 or base["kind"] == "SORDy"):            # a bag that the classes explain exactly
        k = rng.randint(1, 4, n)
        if base is not cfg:
            k[:] = k[0]
        ix = rng.permutation(np.concatenate([np.tile(np.where(y == c + 1)[0], k[c]) for c in range(n)]))
        Z, Q = X[ix], P[ix]
    else:
        z = rng.randint(1, n + 1, rng.choice([1, 4, 9, 16]))
        Z, Q = put(z), rows(rng, z, n, sharp)
        if coarse:
            Q = np.round(Q * 8) / 8
            Q[np.arange(len(z)), z - 1] += 1 - Q.sum(axis=1)
        tight = tight and "never"
    given = case["via"] == "given" and rl not in ("X", "tree")
    if rl == "crisp":
        P, Q = P.argmax(axis=1), Q.argmax(axis=1)
    A = P
    if not given and rl in ("crisp", "prob"):
        A = zoo.Cls().fit(X, y)
        A = A.predict(X) - 1 if rl == "crisp" else A.predict_proba(X)
    train, bag, kind, sig = np.arange(len(y)), np.arange(len(Z)), case["names"], np.arange(n)      # sig: 0-based exchange of identities
    cols = lambda A: A[:, np.argsort(sig)] if not rl == "fh" else A.cumsum(axis=1)[:, :-1]

    def ask():
        lab = names(kind, n)
        yy = lab[sig[y[train] - 1]]
        if not given:
            e = lambda: zoo.estimator(rl) if rl not in ("X", "tree") else None
            q = zoo.make(cfg, e(), e()) if rl != "tree" else zoo.make(cfg, None, zoo.Cls())
            zoo.fit(q, cfg, X[train], yy)
            return q, zoo.predict(q, cfg, Z[bag])
        q = zoo.make(cfg)
        if rl == "crisp":
            p, t = lab[sig[P]], lab[sig[Q]]
        else:
            p, t = cols(P), cols(Q)
        zoo.fit(q, cfg, X[train], yy, p[train])
        return q, zoo.predict(q, cfg, Z[bag], t[bag])
    evs = []
    (res, exc) = call(ask, limit=100)
    tol, wide = "1/1000000", "1/200"
    more = dict(kind=cfg["kind"], n=n, draws=draws, tol=tol, wide=wide)
    evs.append(dict(more, ev="base", new=True, op="", i=0, j=0, names=kind, cfg={k: str(v) for k, v in cfg.items()}, seed=case["seed"], exc=exc, out=V(res[1]) if not exc else [],
                    moves=False, desc=[], via=case["via"]))
    if exc:
        return evs
    moves = cfg["kind"] in MOVES and not coarse and tight != "never" and (n > 2 or rl == "X" or cfg["kind"] in ("CC", "PCC", "AC", "PAC", "EM", "EDy", "CvMy", "FriedmanME") or cfg.get("strat", "equal_width") == "equal_width" and not cfg.get("cdf"))
    for op in case["ops"]:
        o = op["op"]
        if draws and o != "names" or o == "classes" and (not moves or max(op["i"], op["j"]) > n):
            continue
        if o == "names":
            kind = op["how"]
        elif o == "classes":
            a, b = op["i"] - 1, op["j"] - 1
            sig = np.array([b if c == a else a if c == b else c for c in sig])
        elif o == "train":
            train = train[np.argsort(sig[y[train] - 1], kind="stable")] if op["how"] == "sort" else block(train, op)
        else:
            bag = block(bag, op)
        (res, exc) = call(ask, limit=100)
        evs.append(dict(more, ev="step", new=False, op=o, i=op["i"], j=op["j"], how=op["how"], exc=exc, out=V(res[1]) if not exc else [], moves=bool(moves),
                        desc=describe(res[0], cfg, n, A, y) if moves and not exc else []))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    q = lambda t: "{%s}" % ", ".join('"%s"' % x for x in t)
    inv = ["CountingMoves", "MatchingMoves", "OrdinalStays", "OrdinalTurns"]
    for N, t, b, dep, den in chk.n(((2, 3, 2, 3, 4), (3, 3, 1, 2, 3)), ((2, 3, 3, 4, 4), (2, 4, 2, 3, 6), (3, 3, 2, 2, 4), (3, 4, 1, 2, 2))):
        chk.mc("MCSymmetry", dict(N=str(N), Train=str(t), Bag=str(b), Names=q(NAMES[:1]), Depth=str(dep), Judge="TRUE", Den=str(den), ClassesMove="TRUE"), inv, view="View")
    hists = []
    for N in (2, 3, 4):
        c = dict(N=str(N), Train="4", Bag="4", Names=q(NAMES), Judge="FALSE", Den="1", ClassesMove="TRUE")
        short = chk.mc("MCSymmetry", dict(c, Depth="2"), ["Export"], emit=True)
        long_ = chk.mc("MCSymmetry", dict(c, Depth="7"), ["Export"], emit=True, workers=1, args=("-simulate", "num=%d" % chk.n(12, 60), "-seed", str(chk.seed), "-depth", "8"))
        short.sort(key=str)
        long_.sort(key=str)
        hists.append((N, short, long_))
    cases = []
    every = zoo.settings()
    for N, short, long_ in hists:
        cfgs = [z for z in every if not z.get("multi" if N == 2 else "binary")]
        for i in range(chk.n(len(cfgs) * (3 if N < 4 else 1), len(cfgs) * 30)):
            h = (long_ if rng.rand() < .7 else short)
            h = h[int(rng.randint(len(h)))]
            cases.append(dict(cfg=cfgs[i % len(cfgs)], n=N, ops=h, names=NAMES[i % len(NAMES)], seed=int(rng.randint(10 ** 6)), via="given" if rng.rand() < .7 else "estimator"))
    chk.validate("TraceSymmetry", chk.record(run, cases))
    return chk.finish(assumptions=["exchanging classes is judged where the class descriptions the quantifier keeps are independent (Gram determinant at least 1/50 of the product of their squared lengths)"])
