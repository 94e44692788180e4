"""P20: ordinal Frank-and-Hall classifiers combine their binary models as documented."""
import numpy as np
from core import *
from gen import *
import decomp


def binarizer(case):
    from quantificationlib.estimators.frank_and_hall import FHLabelBinarizer
    cls = make_labels(case["names"], case["n"])
    y1 = np.array(case["y"])
    lo, hi = case["neg"], case["pos"]
    out, exc = call(lambda: FHLabelBinarizer(neg_label=lo, pos_label=hi).fit(cls).transform(cls[y1 - 1]) if case["sep"] else FHLabelBinarizer(neg_label=lo, pos_label=hi).fit_transform(np.concatenate([cls[y1 - 1], cls])))
    y = case["y"] + ([] if case["sep"] else list(range(1, case["n"] + 1)))
    return [dict(ev="binarizer", new=True, exc=exc, n=case["n"], y=[int(v) for v in y], neg=lo, pos=hi, out=[[int(v) for v in r[:case["n"] - 1]] for r in np.asarray(out).tolist()] if not exc else [])]


def cases_of(chk, rules, vec, rng):
    cases = []

    def add(rule, T, **k):
        d = dict(rule=rule, T=T, seed=int(rng.randint(10 ** 6)), names=LABELS[len(cases) % len(LABELS)], jobs=2 if len(cases) % 97 == 5 else None, fresh=bool(rng.rand() < .4), params=bool(rng.rand() < .3) and rule == "plain",
                 oqt=bool(rng.rand() < .4), measure="kld")
        if rule == "tree" and not d["oqt"]:
            d["measure"] = ["kld", "ae", "bias"][rng.randint(3)]
        d.update(k)
        if rule == "tree" and d["oqt"]:
            d["fresh"] = True                   # trained estimators are not trained again
        cases.append(d)

    for rule in rules:
        for s in vec:
            vs = vec[s]
            step = 5 if rule != "tree" else 8
            for j in range(0, len(vs), step):
                add(rule, [vs[j:j + step]], n=s + 1)
        for i in range(chk.n(60 if rule != "tree" else 250, 800)):
            big = i % 30 == 7                  # now and then many classes and examples
            n = int(rng.randint(2, 7)) if not big else int(rng.choice([8, 10]))
            add(rule, [decomp.spread(rng, n - 1, int(rng.randint(1, 5)) if not big else 64) for _ in range(rng.randint(1, 3))], n=n)
    return cases


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = cases_of(chk, ["plain", "monotone"], decomp.vectors(chk), rng)
    hs = chk.record(decomp.rows, cases)
    b = [dict(names=LABELS[i % len(LABELS)], n=int(rng.randint(2, 7)), neg=int(rng.choice([0, 0, -1, 2])), pos=0, sep=bool(rng.randint(2))) for i in range(chk.n(40, 300))]
    for c in b:
        c["pos"] = c["neg"] + int(rng.randint(1, 3))
        c["y"] = [int(v) for v in rng.randint(1, c["n"] + 1, rng.randint(1, 9))]
    chk.validate("TraceDecomposition", hs + chk.record(binarizer, b))
    return chk.finish(assumptions=["the binary models answer with multiples of 1/16"])
