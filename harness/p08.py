"""P08: bags drawn by pure prior shift are quantified exactly."""
import numpy as np
from scipy.stats import rankdata
from core import *
from gen import LABELS, make_labels
import zoo, protocol
from p06 import rows

KINDS = ("AC", "PAC", "HDy", "MMy", "HDX", "DFy", "DFX", "EDy", "EDX", "CvMy", "FriedmanME", "SORDy", "QUANTy", "ACOrdinal", "PDFOrdinaly", "PWKQ")
HD = ("HD",)


def wanted(c):
    if c["kind"] in ("OVR", "FH", "OVRX", "FHX"):
        return c.get("base", {}).get("kind") in KINDS
    if c["kind"] not in KINDS:
        return False
    d = c.get("distance", "HD" if c["kind"][:2] == "DF" else "")
    return not (d == "HD" and (c.get("cdf") or c["kind"] == "FriedmanME"))


def describe(base, q, X, A, y, n, Zx, Za):
    """(descriptions of the classes, Gram matrix): one of them empty"""
    k = base["kind"]
    if k in ("AC", "PAC", "ACOrdinal", "PWKQ"):
        if k == "PWKQ":
            from quantificationlib.estimators.weighted_knn import PWK
            A = PWK(n_neighbors=base.get("k", 10), p=base.get("p", 2)).fit(X, y).predict(X) - 1
        A = np.eye(n)[A.astype(int)] if A.ndim == 1 else A
        return M(np.array([A[y == c].mean(axis=0) for c in range(1, n + 1)])), []
    if k in ("SORDy", "QUANTy"):
        v = np.unique(A[:, 1])
        return M(np.array([[(A[y == c][:, 1] == u).mean() for u in v] for c in (1, 2)])), []
    if k in ("EDX", "EDy", "CvMy"):
        F, T = (X, Zx) if k == "EDX" else (A, Za)
        if k == "CvMy":
            H = np.apply_along_axis(rankdata, 0, np.concatenate([F, T]))
            F, T = H[:len(F)], H[len(F):]
        m = base.get("metric", "euclidean" if k == "EDX" else "manhattan")
        D = zoo.metric(m)(F, F)
        K = np.array([[D[y == a][:, y == b].mean() for b in range(1, n + 1)] for a in range(1, n + 1)])
        B = K[:-1, -1:] + K[-1:, :-1] - K[:-1, :-1] - K[-1, -1]
        return [], M(B)
    d = np.asarray(q.train_distrib_, dtype=float)
    d = d.reshape(-1, d.shape[-1])
    return M(d.T if d.shape[1] == n else d), []


def run(case):
    cfg = case["cfg"]
    rl = zoo.role(cfg)[0]
    base = cfg.get("base", cfg)
    wrapped = base is not cfg
    rng = np.random.RandomState(case["seed"])
    n = len(case["hist"][0]["m"])
    labels = make_labels(case["names"], n)
    given = case["via"] == "given" and rl != "X"
    d, q, evs = int(rng.randint(1, 4)), None, []
    for h in case["hist"]:
        if h["op"] == "fit":
            m = np.array(h["m"]) * (1 + case["seed"] % 3)
            y = rng.permutation(np.repeat(np.arange(1, n + 1), m))
            near, spread = [(1, 9), (3, 9), (4, 5)][rng.randint(3)]
            cen = np.array([[near * (c + 1) * (1 if j % 2 == 0 else -1) * (c % 2 + 1) for j in range(d)] for c in range(n)])
            X = (cen[y - 1] + rng.randint(-spread, spread + 1, (len(y), d))) / 8.
            if base["kind"] == "PWKQ":
                X = X + rng.uniform(-.05, .05, X.shape)
                if base.get("k", 10) > len(y):
                    cfg = base = dict(cfg, k=1)
                    q = None
            P = rows(rng, y, n, rng.choice([.2, .4, .6, .8]))
            if rng.rand() < .3:
                P = np.round(P * 8) / 8
                P[np.arange(len(y)), y - 1] += 1 - P.sum(axis=1)
            if rl == "winner":
                P = P * (np.arange(n) >= np.minimum(y - 1, n - 2)[:, None]) * (np.arange(n) <= np.minimum(y, n - 1)[:, None])
                P = np.round(P / P.sum(axis=1, keepdims=True) * 64) / 64
            e = lambda: zoo.estimator(rl) if not given and rl != "X" else None
            if q is None or not given:
                q = zoo.make(cfg, e(), e())
            A = P
            if rl == "crisp":
                P = P.argmax(axis=1)
                A = P
                P = labels[P]
            if not given:
                est = zoo.estimator(rl).fit(X, labels[y - 1]) if rl != "X" else None
                A = None if rl == "X" else protocol.given(rl, est, X, rl == "crisp")
                if rl == "crisp":
                    A = np.searchsorted(labels, A)
                P = None
            elif rl == "fh":
                P = A = P.cumsum(axis=1)[:, :-1]
            if A is not None and rl in ("fh", "ovr") and A.shape[1] == 1:
                A = np.column_stack([1 - A[:, 0], A[:, 0]])
            _, exc = call(zoo.fit, q, cfg, X, labels[y - 1], P, limit=100)
            refs = [(q, None)]
            if not exc and wrapped:
                refs = []
                for flip in (False, True):
                    r, t = zoo.make(base), 3 - y if flip else y
                    C = A if A is None or not flip else A[:, ::-1]
                    if rl == "X":
                        r.fit(X, t)
                    else:
                        r.fit(None, t, predictions_train=C if zoo.role(base)[0] != "crisp" else C.argmax(axis=1) + 1)
                    refs.append((r, flip))
            evs.append(dict(ev="fit", new=not evs, kind=cfg["kind"], cfg={k: str(v) for k, v in cfg.items()}, m=[int(v) for v in m], names=case["names"], via=case["via"], seed=case["seed"], exc=exc))
            if exc:
                break
        else:
            ix = rng.permutation(np.concatenate([np.tile(np.where(y == c + 1)[0], h["k"][c]) for c in range(n)]).astype(int))
            out, exc = call(zoo.predict, q, cfg, X[ix], P[ix] if P is not None else None, limit=100)
            desc, gram = [], []
            for r, flip in refs:
                t, B = 3 - y if flip else y, A[:, ::-1] if flip and A is not None else A
                if B is not None and B.ndim > 1 and zoo.role(base)[0] == "crisp":
                    B = B.argmax(axis=1)
                D, G = describe(base, r, X, B, t, n, X[ix], None if B is None else B[ix])
                desc, gram = desc + ([D] if D else []), gram + ([G] if G else [])
            hd = base["kind"] in ("HDy", "HDX") or base.get("distance", "HD" if base["kind"][:2] == "DF" else "") == "HD"
            evs.append(dict(ev="predict", new=False, kind=cfg["kind"], k=[int(v) for v in h["k"]], exc=exc, out=V(out) if not exc else [], desc=desc, gram=gram, hd=hd and not wrapped,
                            tol="1/100" if hd and wrapped else "1/1000"))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    inv = ["TruthExplains", "TruthHasNoEnergy", "NothingElseDoes"]
    base = [dict(N="2", Values="2", PerClass="3", Factors="{0, 1, 2}", Den="6"), dict(N="2", Values="3", PerClass="2", Factors="{0, 1, 2}", Den="4"),
            dict(N="3", Values="3", PerClass="2", Factors="{0, 1}", Den="3")]
    if chk.n(0, 1):
        base += [dict(N="2", Values="3", PerClass="3", Factors="{0, 1, 2, 3}", Den="12"), dict(N="3", Values="3", PerClass="2", Factors="{0, 1, 3}", Den="4"),
                 dict(N="3", Values="4", PerClass="2", Factors="{0, 1}", Den="3")]
    for c in base:
        chk.mc("MCPriorShift", dict(c, Judge="TRUE", Depth="2"), inv, view="View")
    every = [c for c in zoo.settings() if wanted(c)]
    cases = []
    for n in (2, 3, 4):
        beh = chk.mc("MCPriorShift", dict(N=str(n), Values="1", PerClass="5", Factors="{0, 1, 2, 5}", Den="1", Judge="FALSE", Depth="6"), ["Export"], emit=True, workers=1,
                     args=("-simulate", "num=%d" % chk.n(20, 100), "-seed", str(chk.seed), "-depth", "7"))
        beh.sort(key=str)
        cfgs = [z for z in every if not z.get("multi" if n == 2 else "binary") and (n == 2 or "base" not in z)]
        for i in range(chk.n(len(cfgs) * (12 if n < 4 else 6), len(cfgs) * 200)):
            h = beh[int(rng.randint(len(beh)))]
            cases.append(dict(cfg=cfgs[i % len(cfgs)], hist=h, names=LABELS[i % len(LABELS)], seed=int(rng.randint(10 ** 6)), via="given" if rng.rand() < .75 else "estimator"))
    chk.validate("TracePriorShift", chk.record(run, cases))
    return chk.finish(assumptions=["judged where the class descriptions are independent: Gram determinant at least 1/50 of the product of their squared lengths"])
