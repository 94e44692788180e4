"""P18: one-vs-rest quantification normalises the binary estimates of each class."""
import numpy as np
from core import *
from gen import LABELS
import decomp


def cases_of(chk, scheme, extra):
    rng = np.random.RandomState(chk.seed)
    vec = decomp.vectors(chk)
    if chk.quick:
        vec.pop(4, None)
    cases = []

    def add(est, **k):
        d = dict(scheme=scheme, est=est, seed=int(rng.randint(10 ** 6)), names=LABELS[len(cases) % len(LABELS)], source=["X", "given", "own"][rng.randint(3)], crisp=bool(rng.rand() < .3), r=int(rng.randint(1, 3)),
                 fresh=bool(rng.rand() < .3), separate=bool(rng.rand() < .4))
        d.update(k)
        if d["source"] == "X":
            d["crisp"] = False
        if d["source"] == "own" and len(set(len(e[0]) for e in est)) > 1 or d["source"] == "own" and len(est) > 1:
            d["fresh"] = True                       # trained estimators are not trained again
        cases.append(d)

    for s in vec:
        if s + (scheme == "fh") < 2:
            continue
        vs = vec[s]
        for j in range(0, len(vs), 4):
            add([vs[j:j + 4]])
    for i in range(chk.n(150, 1500)):
        n = int(rng.randint(2, 7)) if i % 25 != 7 else int(rng.choice([8, 11]))      # now and then many classes
        m = n if scheme == "ovr" else n - 1
        k = int(rng.randint(1, 3))
        est = []
        for _ in range(k):
            n2 = n if rng.rand() < .5 else int(rng.randint(2, 6))
            m2 = n2 if scheme == "ovr" else n2 - 1
            z = [[str(v) for v in (Fraction(int(a), 64) for a in rng.randint(0, 65, m2) * (rng.rand(m2) < rng.choice([1, .6])))] for _ in range(rng.randint(1, 3))]
            if rng.rand() < .1:
                z = [["0"] * m2]
            est.append(z)
        add(est)
    return cases


def main(chk):
    cases = cases_of(chk, "ovr", None)
    chk.validate("TraceDecomposition", chk.record(decomp.compose, cases))
    return chk.finish(assumptions=["the wrapped quantifiers are scripted: what they answer is covered by their own properties",
                                   "all estimates zero: any distribution is accepted"])
