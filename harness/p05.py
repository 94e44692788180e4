"""P05: a prediction depends only on the last training set and the bag."""
import numpy as np
from core import *
from gen import LABELS
import zoo, protocol


def main(chk):
    rng = np.random.RandomState(chk.seed)
    every = zoo.settings()
    role = lambda c: zoo.role(c)[0]
    base = lambda c: c.get("base", c) if not c["kind"].startswith("EoQ") else dict(kind="PAC")
    classified = [c for c in every if role(c) in ("prob", "crisp", "ovr", "fh", "winner")]
    needing = [c for c in classified if zoo.role(base(c))[1]]
    plans = [
        # roles, data sets, given, initial estimators, configurations, histories
        ("RolesFree", ("Same", [2, 2]), "{0}", "{0}", [c for c in every if role(c) == "X"], 150),
        ("RolesFree", ("Other", [2, 3]), "{0}", "{0}", [c for c in every if role(c) == "X"], 150),
        ("RolesGiven", ("Same", [2, 2]), "{11, 12, 21}", "{0}", needing, 120),
        ("RolesGiven", ("Other", [2, 3]), "{11, 12, 21, 22}", "{0}", needing, 200),
        ("RolesGiven", ("Three", [3, 3]), "{11, 12, 21}", "{0}", needing, 80),
        ("RolesTrain", ("Same", [2, 2]), "{0, 11, 12, 21}", "{0, 1}", needing, 120),
        ("RolesTrain", ("Three", [3, 3]), "{0, 11, 12, 21}", "{0, 1}", needing, 80),
        ("RolesTest", ("Same", [2, 2]), "{0, 11, 12}", "{0, 1}", [c for c in classified if c not in needing], 40),
        ("RolesTest", ("Three", [3, 3]), "{0, 11, 12}", "{0, 1}", [c for c in classified if c not in needing], 40),
        ("RolesOwn", ("Three", [3, 3]), "{0}", "{0}", [c for c in every if role(c) == "tree"], 16),
    ]
    cases = []
    part = lambda n: chk.n(n, n * 8)
    for roles, (name, classes), given, pre, cfgs, num in plans:
        num = part(num * 2)
        cfgs = [c for c in cfgs if not (c.get("binary") and max(classes) > 2) and not (c.get("multi") and min(classes) < 3)]
        bags = "{1, 2}"
        beh = protocol.histories(chk, roles, pre, name, bags, given, 7, num * 2, exhaustive=3 if roles in ("RolesFree", "RolesGiven", "RolesOwn") else 2)
        beh.sort(key=str)
        # histories without a second fit or a repeated question say little
        def worth(h):
            last = {}
            for e in h:
                if e["op"] == "predict":
                    last.setdefault(e["q"], "asked")
                    if last[e["q"]] == "again":
                        return True
                elif e["op"] == "fit" and last.get(e["q"]) == "asked":
                    last[e["q"]] = "again"
            return False
        beh = [h for h in beh if worth(h)]
        if roles == "RolesOwn":
            beh = [h for h in beh if h[0]["role"][0]["te"] != h[0]["role"][1]["te"]]
        lazy = [h for h in beh if not any(e["op"] == "fit" and e["g"] and h[0]["role"][e["q"] - 1]["tr"] for e in h)]
        rng.shuffle(cfgs)
        for i in range(num):
            c = cfgs[i % len(cfgs)]
            eoq = c["kind"].startswith("EoQ")
            pool = lazy if eoq else beh
            if not pool:
                continue
            peers = [o for o in cfgs if ("prob" if role(o) == "crisp" else role(o)) == ("prob" if role(c) == "crisp" else role(c)) and (pool is lazy or not o["kind"].startswith("EoQ"))]
            cases.append(dict(cfg=c, cfg2=peers[int(rng.randint(len(peers)))] if i % 4 == 3 else c, hist=pool[int(rng.randint(len(pool)))], seed=int(rng.randint(10 ** 6)),
                              names=LABELS[i % len(LABELS)], classes=classes, sizes=0, bags=2, tol="1/1000000", want=["memo"]))
    chk.validate("TraceProtocol", chk.record(protocol.run, cases))
    return chk.finish(assumptions=["trained estimators answer for the classes they were trained with", "a bag generator supplied by the user keeps its bags; every fit is given a new one"])
