"""P12: the binary methods DeBias, SORDy and QUANTy."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *


def make(case):
    from quantificationlib.binary.debias import DeBias
    from quantificationlib.binary.emd import SORDy
    from quantificationlib.binary.quantiles import QUANTy
    from quantificationlib.metrics.multiclass import l1, l2
    m = case["method"]
    if m == "debias":
        return DeBias()
    if m == "sord":
        return SORDy() if case.get("default") else SORDy(tol=case["tol"])
    if case.get("default"):
        return QUANTy()
    return QUANTy(n_quantiles=case["q"], distance={"l1": l1, "l2": l2}[case["dist"]], tol=case["tol"])


def run(case):
    m = case["method"]
    q = make(case)
    if case.get("reject"):
        labels = make_labels(case["names"], case["n"])
        y = labels[np.arange(12) % case["n"]]
        p = np.random.RandomState(1).dirichlet(np.ones(max(2, case["n"])), 12)
        if case["via"] == "estimator":
            q.estimator_train = q.estimator_test = Table(labels, probs=p)
            _, exc = call(q.fit, np.arange(12.).reshape(-1, 1), y)
        else:
            _, exc = call(q.fit, None, y, predictions_train=p)
        return [dict(ev="reject", new=True, n=case["n"], exc=exc, method=m)]
    labels = make_labels(case["names"], 2)
    y = labels[np.array(case["y"]) - 1]
    two = lambda s: np.array([[float(1 - Fraction(v)), float(Fraction(v))] for v in s])
    tr, te = two(case["post"]), [two(b) for b in case["bags"]]
    n0 = len(y) // case["reps"]
    if case["via"] == "estimator":
        e = Table(labels, probs=np.concatenate([tr] + te))
        q.estimator_train = q.estimator_test = e
        _, fexc = call(q.fit, np.arange(len(tr), dtype=float).reshape(-1, 1), y)
    else:
        _, fexc = call(q.fit, None, y[:n0], predictions_train=tr)
    evs, off = [], len(tr)
    for i, t in enumerate(te):
        if fexc:
            out, exc = None, fexc
        elif case["via"] == "estimator":
            out, exc = call(q.predict, np.arange(off, off + len(t), dtype=float).reshape(-1, 1))
        else:
            out, exc = call(q.predict, None, predictions_test=t)
        off += len(t)
        evs.append(dict(ev=m, new=i == 0, post=case["post"], y=case["y"], y0=case["y"][:n0], bag=case["bags"][i], q=case["q"], dist=case["dist"],
                        tol=R(case["tol"]), fine=case.get("fine", False), via=case["via"], names=case["names"], out=V(out) if not exc else [], exc=exc))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    beh = chk.mc("MCBinaryMethods", dict(Scores="<- S4" if chk.quick else "<- S5", MaxTrain="2", MaxTest="2"),
                 ["SordRecovers", "SordConvex", "SliceMass", "Export"], emit=True)
    beh.sort(key=str)
    take = chk.n(330, 3000)
    if len(beh) > take:
        beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
    for i, b in enumerate(beh):
        m = ["debias", "sord", "quant"][i % 3]
        cases.append(dict(method=m, names=LABELS[i % len(LABELS)], post=b["neg"] + b["pos"], y=[1] * len(b["neg"]) + [2] * len(b["pos"]), bags=[b["bag"]],
                          q=[2, 4, 1, 8, 3][i % 5], dist=["l2", "l1"][i % 2], tol=1e-5, via="given", reps=1))
    for i in range(chk.n(360, 4000)):
        m = ["debias", "sord", "quant"][i % 3]
        big = i % 72 in (7, 8, 9)        # now and then large samples
        den = int(rng.choice([8, 16, 64]))
        sz = rng.choice([1, 2, 3, 8, 25] if not big else [30, 120, 260], 2)
        y = [1] * int(sz[0]) + [2] * int(sz[1])
        sharp = rng.rand() < .7
        def draw(c):
            b = rng.beta(4, 2) if c == 2 else rng.beta(2, 4)
            return str(Fraction(int(round(den * (b if sharp else rng.rand()))), den))
        y = [y[j] for j in rng.permutation(len(y))]
        post = [draw(c) for c in y]
        if rng.rand() < .08:
            post = [post[0]] * len(post)
        if rng.rand() < .08:
            post = [str(Fraction(int(sz[1]), int(sum(sz))))] * len(post)
        bags = []
        for _ in range(2):
            p, k = rng.choice([0, 0.1, .5, .9, 1]), int(rng.choice([1, 2, 5, 12, 40] if not big else [100, 256, 300]))
            bags.append([draw(2 if rng.rand() < p else 1) for _ in range(k)])
        via, reps = ["given", "estimator"][rng.randint(2)], 1
        if via == "given" and i % 4 == 0:
            reps, y = 2, y + y
            post = post + [draw(c) for c in y[:len(y) // 2]]
        c = dict(method=m, names=LABELS[rng.randint(len(LABELS))], post=post, y=y, bags=bags, q=int(rng.choice([1, 2, 4, 5, 8, 10, 30])),
                 dist=["l2", "l1"][rng.randint(2)], tol=float(rng.choice([1e-5, 1e-4])), via=via, reps=reps, fine=bool(rng.rand() < .15))
        if rng.rand() < .3:
            c.update(default=True, q=8, dist="l2", tol=1e-5)
        if c["q"] == 30:
            c["fine"] = False
        cases.append(c)
    for m in ("debias", "sord", "quant"):
        for n in (1, 2, 3, 5):
            for names in ("int0", "str"):
                for via in ("given", "estimator"):
                    cases.append(dict(method=m, reject=True, n=n, names=names, via=via, default=True, tol=1e-5))
    chk.validate("TraceBinaryMethods", chk.record(run, cases))
    return chk.finish(assumptions=["the quantile objective is not convex: optimality is decided on a grid of 21 or 101 prevalences with tolerance 1e-3",
                                   "with posteriors that do not vary at all the debiased estimate is undefined and only has to be a distribution"])
