"""P22: the decision DAG distributes probability along all paths."""
import numpy as np
from core import *
from gen import LABELS
import decomp


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []

    def add(T, n):
        cases.append(dict(rule=["full", "winner"][len(cases) % 2], T=T, n=n, seed=int(rng.randint(10 ** 6)), names=LABELS[len(cases) // 2 % len(LABELS)], jobs=2 if len(cases) % 97 == 5 else None,
                          fresh=bool(rng.rand() < .4), params=False, oqt=False))

    for n, d, step in ((2, 8, 3), (3, 4, 3), (4, 2, 12)) if chk.quick else ((2, 16, 3), (3, 8, 3), (4, 3, 24)):
        beh = chk.mc("MCDag", dict(N=str(n), D=str(d)), ["Rows", "Share", "WinnerPair", "CrispAgree", "Export"], emit=True)
        ts = sorted((b["p"] for b in beh), key=str)
        for k in (0, 1):                                            # both modes see all tables
            for j in range(0, len(ts), step):
                if len(cases) % 2 != k:
                    cases.append(None)
                add([ts[j:j + step]], n)
    cases = [c for c in cases if c]
    for i in range(chk.n(120, 1200)):
        n = int(rng.randint(2, 7)) if i % 30 not in (7, 8) else int(rng.choice([8, 10]))
        T = [[[[str(Fraction(int(rng.randint(0, 17)), 16)) if a < b else "0" for b in range(n)] for a in range(n)] for _ in range(rng.randint(1, 5) if i % 30 not in (11, 14) else 60)] for _ in range(rng.randint(1, 3))]
        add(T, n)
    for i, c in enumerate(cases):
        if i % 2 and c["n"] > 4 and rng.rand() < .5:
            c["rule"] = "full"
    chk.validate("TraceDecomposition", chk.record(decomp.rows, cases))
    return chk.finish(assumptions=["the pairwise models answer with multiples of 1/16"])
