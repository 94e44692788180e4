"""Histories of fits and predictions (specification Protocol) replayed through real quantifiers that share estimators."""
import hashlib
import numpy as np
from copy import deepcopy
from fractions import Fraction
from core import *
from gen import make_labels
import zoo

GAIN = {1: 0.125, 2: 0.5}
CACHE = {}


def world(seed, classes, names, sizes, bags, d=2):
    """data sets and bags"""
    rng = np.random.RandomState(seed)
    data, test = [], []
    for i, n in enumerate(classes):
        labels = make_labels(names, n)
        # data sets of different difficulty, shape and place
        near, spread = [(3, 6), (1, 9)][(i + seed) % 2]
        X, y = zoo.ordered(rng, n, sizes(rng, n), d, spread=spread, near=near)
        X = X + rng.randint(-1, 2, d)
        data.append((X, labels[y - 1], n))
    nb = max(classes)
    for _ in range(bags):
        y = rng.randint(1, nb + 1, rng.choice([1, 7, 12]))
        X, _ = zoo.ordered(rng, nb, np.ones(nb, int) * 4, d, near=int(rng.choice([1, 3])))
        test.append(X[rng.permutation(len(X))[:len(y)]])
    return data, test


def model(rl, m, data):
    """the model m = Model(e, d): estimator e trained with data set d"""
    e, d = m // 10, m % 10
    X, y, n = data[d - 1]
    if rl == "tree":
        from quantificationlib.estimators.frank_and_hall import FrankAndHallTreeClassifier
        return FrankAndHallTreeClassifier(zoo.Cls(GAIN[e])).fit(X, y)
    return zoo.estimator(rl, GAIN[e]).fit(X, y)


def given(rl, mod, X, crisp):
    """the predictions of a model, in the form a caller would pass them"""
    if rl == "fh" or rl == "ovr" and len(mod.classes_) > 2:
        return np.column_stack([e.predict_proba(X)[:, 1] for e in mod.estimators_])
    return mod.predict(X) if crisp else mod.predict_proba(X)


def digest(a):
    a = np.asarray(a)
    return hashlib.md5(repr((a.dtype.str, a.shape)).encode() + (a.tobytes() if a.dtype != object else repr(a.tolist()).encode())).hexdigest()


def templates(q):
    """quantifiers and estimators the object was given to make copies of"""
    out = []
    for a in ("base_quantifier", "quantifier"):
        t = getattr(q, a, None)
        if t is not None:
            out.append((a, t))
    t = getattr(q, "regression_estimator", None)
    if t is not None:
        out.append(("regression_estimator", t))
    return out


def own(cfg):
    """is the distance one of the user? it may refuse when all prevalences are equally good"""
    return str(cfg.get("base", cfg).get("distance", ""))[:2] in ("fl", "fh", "ft", "pl")


def learned(t):
    """what a template has learnt: attributes that end in _ (estimators inside included)"""
    out = []
    for k, v in sorted(vars(t).items()):
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = digest(v)
        elif hasattr(v, "get_params") and not isinstance(v, type):
            v = learned(v)
        elif isinstance(v, (list, tuple, dict, np.ndarray)):
            v = repr(v)
        if k.endswith("_") and v is not None:
            out.append((k, v if isinstance(v, str) else repr(type(v))))
        elif isinstance(v, str):
            out.append((k, v))
    return repr(out)


def run(case):
    cfgs, hist = [case["cfg"], case.get("cfg2", case["cfg"])], case["hist"]
    rl = zoo.role(cfgs[0])[0]
    rl = "prob" if rl == "crisp" else rl
    rng = np.random.RandomState(case["seed"])
    sizes = lambda r, n: case["sizes"] if isinstance(case["sizes"], list) else r.choice([5, 6, 8, 9], n)
    data, bags = world(case["seed"], case["classes"], case["names"], sizes, case["bags"], case.get("d", 2))
    start = hist[0]
    ests = [zoo.estimator(rl, GAIN[e]) for e in (1, 2)] if rl not in ("X", "tree") else []
    for e, d in enumerate(start["est"]):
        if ests and d:
            ests[e].fit(*data[d - 1][:2])
    base_fits = [1 if d else 0 for d in start["est"]]
    roles = [dict(r, kind=0 if cfgs[0] == cfgs[1] else i) for i, r in enumerate(start["role"])]
    qs = []
    for i, r in enumerate(roles):
        cfg = cfgs[i]
        pick = lambda e: ests[e - 1] if e and ests else None
        if rl == "tree":
            qs.append(zoo.make(cfg, None, zoo.Cls(GAIN[r["te"]]) if r["te"] else None))
        else:
            qs.append(zoo.make(cfg, pick(r["tr"]), pick(r["te"])))
    watch = {}
    for i, (X, y, n) in enumerate(data):
        watch["data%d.X" % (i + 1)], watch["data%d.y" % (i + 1)] = X, y
    for i, b in enumerate(bags):
        watch["bag%d" % (i + 1)] = b
    models = {}

    def mod(m):
        if m not in models:
            models[m] = model(rl, m, data)
        return models[m]

    def passing(m, name, X, crisp):
        k = "given %d for %s%s" % (m, name, " crisp" if crisp else "")
        if k not in watch:
            watch[k] = given(rl, mod(m), X, crisp)
            before[k] = digest(watch[k])
        return watch[k]

    before = {k: digest(v) for k, v in watch.items()}
    tstate = [[(a, learned(t)) for a, t in templates(q)] for q in qs]

    def changed():
        out = sorted(k for k, v in watch.items() if digest(v) != before[k])
        for q, ts in zip(qs, tstate):
            for (a, was), (_, t) in zip(ts, templates(q)):
                if learned(t) != was:
                    out.append("template " + a)
        return out

    def seen():
        if not ests:
            return [], []
        a = []
        for e in ests:
            if not hasattr(e, "seen_"):
                a.append(0)
                continue
            hit = [i + 1 for i, (X, y, n) in enumerate(data) if e.seen_[0].shape == X.shape and (e.seen_[0] == X).all() and (e.seen_[1] == y).all()]
            a.append(hit[0] if hit else -1)
            inner = [s.fits_ for s in getattr(e, "estimators_", []) if hasattr(s, "fits_")]
            if any(f != 1 for f in inner):
                a[-1] = -1
        return a, [getattr(e, "fits_", 0) - b for e, b in zip(ests, base_fits)]

    evs = [dict(ev="start", new=True, role=roles, est=start["est"], exc="", name=[c["kind"] for c in cfgs])]
    keys, know = {}, [None] * len(qs)
    sim = list(start["est"])
    for h in hist[1:]:
        q, r = qs[h["q"] - 1], roles[h["q"] - 1]
        cfg = cfgs[h["q"] - 1]
        coin = bool(rng.randint(2))
        crisp = zoo.role(cfg)[0] == "crisp" and (coin or cfg["kind"] == "EoQc")
        ev = dict(ev=h["op"], new=False, q=h["q"], d=h["d"], b=h["b"], g=h["g"], tol=case["tol"], want=case["want"], refuse=own(cfgs[h["q"] - 1]), out=[])
        if h["op"] == "fit":
            X, y, n = data[h["d"] - 1]
            p = passing(h["g"], "data%d" % h["d"], X, crisp) if h["g"] else None
            _, exc = call(zoo.fit, q, cfg, X, y, p, limit=60)
            # what the specification says is known now
            if rl != "X" and r["needs"] and not r["tr"] and not h["g"]:
                know[h["q"] - 1] = None
            else:
                for e in {r["tr"], r["te"]} - {0}:
                    sim[e - 1] = sim[e - 1] or h["d"]
                know[h["q"] - 1] = [h["d"], 0 if rl == "X" or not r["needs"] else h["g"] or 10 * r["tr"] + sim[r["tr"] - 1]]
        else:
            Z = bags[h["b"] - 1]
            p = passing(h["g"], "bag%d" % h["b"], Z, crisp) if h["g"] else None
            out, exc = call(zoo.predict, q, cfg, Z, p, limit=60)
            ev["out"] = V(out) if not exc else []
            if rl == "X" or r["te"] or h["g"]:
                k = tuple([r["kind"]] + know[h["q"] - 1] + [h["b"], 0 if rl == "X" else h["g"] or 10 * r["te"] + sim[r["te"] - 1]])
                keys.setdefault(k, 0)
        s, f = seen()
        ev.update(exc=exc, seen=s, fits=f, changed=changed())
        evs.append(ev)
    for k in sorted(keys):
        cfg, k = cfgs[k[0]], k[1:] + k[:1]
        fresh = zoo.make(cfg, None, None)
        X, y, n = data[k[0] - 1]
        Z = bags[k[2] - 1]
        crisp = zoo.role(cfg)[0] == "crisp" and (k[2] % 2 == 1 or cfg["kind"] == "EoQc")
        p = given(rl, mod(k[1]), X, crisp) if k[1] else None
        pt = given(rl, mod(k[3]), Z, crisp) if k[3] else None
        if cfg["kind"] == "OQT":
            # a tree takes the predictions of its own estimator only, a fresh one is trained here
            fresh = zoo.make(dict(kind="PCC"), None, None)
        out, exc = call(lambda: (zoo.fit(fresh, cfg, X, y, p), zoo.predict(fresh, cfg, Z, pt))[1], limit=60)
        evs.append(dict(ev="reference", new=False, key=list(k[:4]), kind=k[4], refuse=own(cfg), tol=case["tol"], want=case["want"], exc=exc, out=V(out) if not exc else [], seen=[], fits=[], changed=[]))
    return evs


def histories(chk, roles, pre, classes, bags, given, depth, num, exhaustive=3):
    """histories of the protocol model: checked exhaustively to a small depth, sampled at full depth"""
    c = dict(Roles="<- " + roles, Pre=pre, Classes="<- " + classes, Bags=bags, Given=given)
    inv = ["TrainedOnce", "OnlyLastFit"]
    if exhaustive:
        chk.mc("MCProtocol", dict(c, Depth=str(exhaustive)), inv, properties=["Untouched", "PredictingTrainsNothing"], spec="Spec")
    return chk.mc("MCProtocol", dict(c, Depth=str(depth)), inv + ["Export"], emit=True, workers=1, args=("-simulate", "num=%d" % num, "-seed", str(chk.seed), "-depth", str(depth + 2)))
