"""P04: estimators are trained only when needed, given predictions take precedence."""
import numpy as np
from core import *
from gen import LABELS
import zoo, protocol


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cfgs = [c for c in zoo.settings() if zoo.role(c)[0] in ("prob", "crisp", "ovr", "fh") and not c["kind"].startswith("EoQ")]
    cases = []
    for roles, two, num in (("RolesTrain", True, 220), ("RolesTrain", False, 160), ("RolesTest", True, 90)):
        classes = ("Same", [2, 2]) if two else ("Three", [3, 3])
        for pre in ("{0}", "{0, 1, 2}"):
            beh = protocol.histories(chk, roles, pre, classes[0], "{1, 2}", "{0, 11, 12, 21}", 6, chk.n(num, num * 10) // 8, exhaustive=chk.n(2, 3) if roles == "RolesTrain" else 3)
            needs = roles == "RolesTrain"
            ok = [c for c in cfgs if not c.get("multi" if two else "binary") and (zoo.role(c.get("base", c))[1] == needs)]
            rng.shuffle(ok)
            beh.sort(key=str)
            beh = [beh[int(i)] for i in sorted(rng.choice(len(beh), min(chk.n(num, num * 10), len(beh)), replace=False))]
            for i, h in enumerate(beh):
                cases.append(dict(cfg=ok[i % len(ok)], hist=h, seed=int(rng.randint(10 ** 6)), names=LABELS[i % len(LABELS)], classes=classes[1], sizes=0, bags=2, tol="1/1000000", want=["protocol", "memo"]))
    chk.validate("TraceProtocol", chk.record(protocol.run, cases))
    return chk.finish(assumptions=["trained estimators answer for the classes they were trained with"])
