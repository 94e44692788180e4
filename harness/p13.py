"""P13: composition of generated bags."""
import numpy as np
from fractions import Fraction
from core import *
from gen import *

GENS = {"prior": "PriorShift_BagGenerator", "covariate": "CovariateShift_BagGenerator", "both": "PriorAndCovariateShift_BagGenerator"}


def run(case):
    import quantificationlib.bag_generator as B
    labels = make_labels(case["names"], case["n"])
    y = labels[np.array(case["y"]) - 1]
    X = np.random.RandomState(case["xseed"]).randn(len(y), 2) * case.get("scale", 1)
    kw = dict(case["kw"])
    if kw.get("random_state") == "rs":
        kw["random_state"] = np.random.RandomState(5)
    if "min_prevalence" in kw and case.get("array"):
        kw["min_prevalence"] = np.array(kw["min_prevalence"])
    g = getattr(B, GENS[case["gen"]])(**kw)
    evs = []
    for rep in range(case.get("requests", 1)):
        r, exc = call(g.generate_bags, None if case.get("noX") else X, y, limit=20)
        prev, idx = [], []
        if not exc:
            try:
                p, ix = np.asarray(r[0]), np.asarray(r[1])
                prev = [V(p[:, b]) for b in range(p.shape[1])]
                idx = [[int(v) for v in ix[:, b]] for b in range(ix.shape[1])]
            except Exception:
                prev, idx = [["unreadable"]], [[-1]]
        mn = case["kw"].get("min_prevalence")
        mn = [] if mn is None else [R(mn)] * case["n"] if not isinstance(mn, (list, tuple)) else [R(v) for v in mn]
        evs.append(dict(ev="bags", new=rep == 0, gen=case["gen"], kw=str(case["kw"]), y=case["y"], n=case["n"], size=case["kw"].get("bag_size") or 0,
                        nbags=case["kw"].get("n_bags", 1000), min=mn, invalid=case.get("invalid", False),
                        minbags=case["kw"].get("n_bags", 1000) // (2 if case["gen"] == "both" else 1), prev=prev, idx=idx, exc=exc, names=case["names"]))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    i = 0
    for nc, n, size, qs in ((2, 3, 3, "{0, 1, 2, 3}"), (3, 3, 4, "{0, 1, 2}"), (2, 2, 1, "{0, 2, 4}"), (4, 4, chk.n(3, 5), "{0, 1}")):
        beh = chk.mc("BagComposition", dict(N=str(n), NC=str(nc), Size=str(size), Quarters=qs), ["Composition", "Reported", "Possible", "Export"], emit=True)
        for b in beh:
            i += 1
            mn = [m / 4 for m in b["min"]]
            inv = sum(b["min"]) > 4
            for bs in (size, size * 7):
                cases.append(dict(gen="prior", n=nc, y=b["y"], names=LABELS[i % len(LABELS)], xseed=i, noX=i % 3 == 0,
                                  kw=dict(n_bags=6, bag_size=bs, min_prevalence=mn, random_state=i), invalid=inv, array=i % 2 == 0, requests=2))
            if len(set(mn)) == 1:
                cases.append(dict(gen="prior", n=nc, y=b["y"], names="str", xseed=i, kw=dict(n_bags=6, bag_size=size, min_prevalence=mn[0], random_state=i), invalid=inv, requests=2))
    for i in range(chk.n(900, 9000)):
        n = int(rng.randint(1, 7)) if i % 9 == 0 else int(rng.randint(2, 7))
        big = i % 100 == 41        # now and then many examples, classes or bags
        n = min(n, 6) if not big else int(rng.choice([2, 3, 8, 11]))
        sizes = rng.choice([1, 1, 2, 5, 20, 60] if not big else [1, 100, 256, 500], n)
        y = np.repeat(np.arange(1, n + 1), sizes)
        y = [int(v) for v in rng.permutation(y)]
        gen = ["prior", "prior", "prior", "covariate", "both"][rng.randint(5)]
        kw = dict(n_bags=int(rng.choice([1, 2, 3, 10] if not big else [3, 20])), random_state=int(rng.randint(10 ** 6)))
        if rng.rand() < .8:
            kw["bag_size"] = int(rng.choice([1, 2, 3, 7, 10, 50, 101] if not big else [256, 300, 1000]))
        if rng.rand() < .1:
            kw["random_state"] = "rs"
        if rng.rand() < .1:
            del kw["random_state"]
        c = dict(gen=gen, n=n, y=y, names=LABELS[rng.randint(len(LABELS))], xseed=i, scale=float(rng.choice([.1, 1, 10, 100])), kw=kw, requests=int(rng.choice([1, 2])))
        if gen != "covariate":
            s = rng.rand()
            if s < .3:
                kw["method"] = "Dirichlet"
                a = rng.randint(4)
                if a == 1:
                    kw["alphas"] = float(rng.choice([.1, .5, 1, 10]))
                elif a == 2:
                    kw["alphas"] = [float(v) for v in rng.choice([.05, .5, 1, 4], n)]
                elif a == 3 and rng.rand() < .5:
                    kw["alphas"], c["invalid"] = [1.] * (n + 1), True
            elif s < .6:
                k = rng.randint(3)
                if k == 0:
                    kw["min_prevalence"] = float(Fraction(int(rng.randint(0, 65)), 64 * n))
                elif k == 1:
                    m = rng.multinomial(64, rng.dirichlet(np.ones(n + 1)))[:n]
                    kw["min_prevalence"] = [float(Fraction(int(v), 64)) for v in m]
                else:
                    kw["min_prevalence"] = [1 / n + .2] * n if rng.rand() < .5 else 1 / n + .1 if n > 1 else 1.5
                    c["invalid"] = True
            elif s < .65:
                kw["method"], c["invalid"] = "uniform!", True
            if gen == "prior" and rng.rand() < .3:
                c["noX"] = True
        if rng.rand() < .03:
            kw["random_state"], c["invalid"] = "seed", True
        if gen == "both" and kw["n_bags"] == 1 and c.get("invalid"):
            kw["n_bags"] = 2
        cases.append(c)
    for j, gen in enumerate(GENS):
        cases.append(dict(gen=gen, n=3, y=[1, 2, 3, 3, 2], names="str", xseed=j, kw=dict(bag_size=3)))
    chk.validate("TraceBags", chk.record(run, cases))
    return chk.finish(assumptions=["a generator asked again answers with the same bags, checked here for composition only (P14 checks identity)",
                                   "rounding to whole examples: at most one example below the requested minimum"])
