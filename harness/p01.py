"""P01: every predicted prevalence vector is a probability distribution over the classes."""
import numpy as np
from core import *
from gen import LABELS, make_labels
import zoo, protocol

DEN = 64.
SIZES = ("one-each", "one-in-first", "one-in-last", "few", "skewed")
LEARNERS = ("sharp", "random", "flat", "never-first", "never-last", "certain", "wrong", "ties")
BAGS = ("mixed", "first-only", "last-only", "copies", "foreign", "edge")


def sizes(rng, kind, n):
    s = rng.randint(2, 7, n)
    if kind == "one-each":
        s[:] = 1
    elif kind == "one-in-first":
        s[0] = 1
    elif kind == "one-in-last":
        s[-1] = 1
    elif kind == "skewed":
        s[rng.randint(n)] = 30
    return s


def posteriors(rng, learner, y, n):
    """posterior rows of examples of classes y, in multiples of 1/64"""
    out = np.zeros((len(y), n))
    for i, c in enumerate(y):
        if learner in ("certain", "wrong"):
            out[i, (c - 1 if learner == "certain" else c) % n] = 1
            continue
        if learner == "flat":
            k = rng.multinomial(0, np.ones(n) / n)
            out[i] = 1. / n
            continue
        w = rng.dirichlet(np.ones(n) * rng.choice([.3, 1, 4]))
        if learner == "sharp":
            w = .25 * w
            w[c - 1] += .75
        if learner == "ties":
            w = np.zeros(n)
            w[rng.choice(n, 2, replace=False)] = .5
        if learner in ("never-first", "never-last"):
            w[0 if learner == "never-first" else n - 1] = 0
            w = w / w.sum()
        out[i] = rng.multinomial(int(DEN), w / w.sum()) / DEN
    return out


def examples(rng, learner, y, n, d):
    """features of examples of classes y: multiples of 1/8"""
    cen = np.array([[4 * (c + 1) * (1 if j % 2 == 0 else -1) for j in range(d)] for c in range(n)])
    spread = dict(sharp=1, certain=0, flat=0, random=20, ties=6).get(learner, 5)
    if learner == "flat":
        cen[:] = 5
    if learner in ("never-first", "never-last"):
        a, b = (0, 1) if learner == "never-first" else (n - 1, n - 2)
        cen[a] = cen[b]
    if learner == "wrong":
        cen = np.roll(cen, 1, axis=0)
    X = (cen[y - 1] + rng.randint(-spread, spread + 1, (len(y), d))) / 8.
    if learner == "ties":
        X = np.round(X)
    return X


def bag_classes(rng, kind, m, n):
    if kind == "first-only":
        return np.ones(m, int)
    if kind == "last-only":
        return np.full(m, n)
    return rng.randint(1, n + 1, m)


def run(case):
    cfg = case["cfg"]
    rl, needs, _ = zoo.role(cfg)
    rng = np.random.RandomState(case["seed"])
    q, evs = None, []
    d = int(rng.randint(1, 4))
    for h in case["hist"]:
        n = h["n"]
        labels = make_labels(case["names"], n)
        if h["op"] == "fit":
            learner = h["learner"]
            y = rng.permutation(np.repeat(np.arange(1, n + 1), sizes(rng, h["sizes"], n)))
            if cfg["kind"] == "PWKQ" and len(y) < cfg.get("k", 10):
                cfg = dict(cfg, k=1)
                q = None
            X = examples(rng, learner, y, n, d)
            eoq = cfg["kind"].startswith("EoQ")
            if q is None:
                e = (lambda: zoo.estimator(rl)) if case["via"] == "estimator" and rl not in ("X", "tree") else (lambda: None)
                q = zoo.make(cfg, e(), e()) if rl != "tree" else zoo.make(cfg, None, zoo.Cls())
            P, Pm, Po = posteriors(rng, learner, y, n), None, None
            if case["via"] == "given" and rl not in ("X", "tree"):
                reps = 1 + (case["seed"] % 5 == 0 and cfg["kind"] not in ("OVR", "FH", "PDFOrdinaly"))
                p = np.concatenate([P] * reps)
                if rl == "fh":
                    p = P.cumsum(axis=1)[:, :-1]
                if rl == "crisp" and (case["seed"] % 2 or eoq):
                    p = labels[p.argmax(axis=1)]
                preds = p
            else:
                preds = None
            _, exc = call(zoo.fit, q, cfg, X, labels[y - 1], preds, limit=100)
            evs.append(dict(ev="fit", new=not evs, kind=cfg["kind"], cfg={k: str(v) for k, v in cfg.items()}, n=n, sizes=h["sizes"], learner=learner, via=case["via"], names=case["names"], refuse=False,
                            exc=exc, rows=M(P) if preds is not None else [], X=M(X) if preds is None else [], y=[int(c) for c in y]))
            failed = bool(exc)
            if failed:
                break
            seen = (X, P)
            data = X if preds is None else P
            same = cfg["kind"] in ("QUANTy", "SORDy") and bool((data == data[0]).all())
        else:
            m = h["size"]
            yb = bag_classes(rng, h["bag"], m, n)
            Z, Q = examples(rng, learner, yb, n, d), posteriors(rng, learner, yb, n)
            if h["bag"] == "copies":
                k = rng.randint(len(seen[0]))
                Z, Q = np.repeat(seen[0][k:k + 1], m, axis=0), np.repeat(seen[1][k:k + 1], m, axis=0)
            if h["bag"] == "foreign":
                Z = Z + rng.choice([-1000., 1000., 40.], Z.shape)
                Q = posteriors(rng, LEARNERS[rng.randint(len(LEARNERS))], yb, n)
            if h["bag"] == "edge":
                Z = np.where(rng.rand(*Z.shape) < .5, seen[0].max(axis=0), seen[0].min(axis=0))
                Q = np.eye(n)[rng.randint(0, n, m)]
            p = None
            if case["via"] == "given" and rl not in ("X", "tree"):
                p = Q
                if rl == "fh":
                    p = Q.cumsum(axis=1)[:, :-1]
                if rl == "crisp" and (case["seed"] % 2 or cfg["kind"].startswith("EoQ")):
                    p = labels[Q.argmax(axis=1)]
            out, exc = call(zoo.predict, q, cfg, Z, p, limit=100)
            evs.append(dict(ev="predict", new=False, kind=cfg["kind"], bag=h["bag"], size=m, refuse=protocol.own(cfg) or same, exc=exc, out=V(out) if not exc else [],
                            rows=M(Q) if p is not None else [], X=M(Z) if p is None else []))
    return evs


def lacking(case):
    """known finding: bags given by the user, one of them without examples of a class"""
    from quantificationlib.ensembles.eoq import EoQ
    from quantificationlib.baselines.ac import AC
    y = np.array([1, 1, 2, 2])
    bags = np.array([[0, 1, 2, 3], [0, 1, 0, 1]]).T
    q = EoQ(base_quantifier=AC(), n_quantifiers=2)
    _, exc = call(lambda: q.fit(None, y, predictions_train=y, prevalences=np.array([[.5, 1], [.5, 0]]), indexes=bags))
    fit = dict(ev="fit", new=True, kind="EoQ one-class bag", n=2, refuse=False, exc=exc)
    if exc:
        return [fit]
    out, exc = call(lambda: q.predict(None, predictions_test=np.array([2, 2])))
    return [fit, dict(ev="predict", new=False, kind="EoQ one-class bag", refuse=False, exc=exc, out=V(out) if not exc else [])]


def main(chk):
    rng = np.random.RandomState(chk.seed)
    q = lambda t: "{%s}" % ", ".join('"%s"' % x for x in t)
    base = dict(Classes="{2, 3}", Sizes=q(SIZES[:1]), Learners=q(LEARNERS[:1]), BagSizes="{1}", BagKinds=q(BAGS[:1]), Raw="<- RawValues", Depth="5")
    chk.mc("MCValidity", base, ["AnswersAreDistributions"], view="View")
    cases = []
    every = zoo.settings()
    for n in (2, 3, 4):
        c = dict(Classes="{%d}" % n, Sizes=q(SIZES), Learners=q(LEARNERS), BagSizes="{1, 2, 9}", BagKinds=q(BAGS), Raw="<- NoRaw")
        cfgs = [z for z in every if not z.get("multi" if n == 2 else "binary")]
        one = chk.mc("MCValidity", dict(c, Depth="2"), ["AnswersAreDistributions", "Export"], emit=True)
        long_ = chk.mc("MCValidity", dict(c, Classes="{2, 3}" if n == 3 else "{%d}" % n, Depth="6"), ["AnswersAreDistributions", "Export"], emit=True, workers=1,
                       args=("-simulate", "num=%d" % chk.n(6, 30), "-seed", str(chk.seed), "-depth", "8"))
        for b in (one, long_):
            b.sort(key=str)
        take = chk.n(len(cfgs) * (6 if n < 4 else 2), len(cfgs) * 60)
        for i in range(take):
            cfg = cfgs[i % len(cfgs)]
            if rng.rand() < .8:
                h = one[int(rng.randint(len(one)))]
                h = h + [dict(one[int(rng.randint(len(one)))][1])]
            else:
                h = long_[int(rng.randint(len(long_)))]
                if any(cfg.get("multi" if e["n"] == 2 else "binary") for e in h):
                    h = one[int(rng.randint(len(one)))]
            via = "given" if rng.rand() < .75 else "estimator"
            if via == "estimator" and len({e["n"] for e in h}) > 1:
                via = "given"
            if zoo.role(cfg)[0] == "tree" and len({e["n"] for e in h}) > 1:
                h = one[int(rng.randint(len(one)))]
            cases.append(dict(cfg=cfg, hist=h, names=LABELS[i % len(LABELS)], seed=int(rng.randint(10 ** 6)), via=via))
    chk.validate("TraceValidity", chk.record(run, cases))
    chk.validate("TraceValidity", chk.record(lacking, [0]), label="bag without a class")
    return chk.finish(assumptions=["a user distance is used in two-class problems only, and may refuse (ValueError) when all prevalences are equally good"])
