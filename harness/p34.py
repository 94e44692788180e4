"""P34: the same data give the same answer, however they are stored."""
import numpy as np
from core import *
from gen import LABELS
import p31
from p30 import BINARY
from p31 import MOD, MODELS, FREE, WRAP, ORDINAL

DENSE = ("DFX", "HDX", "EDX", "REGX", "EoQ", "CV_estimator", "PWK", "PWKQuantifier")        # work with dense tables only


def dense(X):
    return np.asarray(X.toarray() if hasattr(X, "toarray") else X, dtype=float)


class Reading(p31.Tilted):
    def fit(self, X, y):
        return super().fit(dense(X), np.asarray(y))

    def predict_proba(self, X):
        return super().predict_proba(dense(X))


def make(kind, given=()):
    o = p31.make(kind, list(given))
    e = Reading(.125)
    if kind == "OneVsRestQuantifier":
        from sklearn.multiclass import OneVsRestClassifier
        e = OneVsRestClassifier(e)
    if kind == "FrankAndHallQuantifier":
        from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier
        e = FrankAndHallClassifier(e)
    if p31.places(kind):
        o.set_params(**{p: e for p in p31.places(kind)})
    return o


def store(m, r, dtype, readonly):
    """the table m, stored as the recipe says; and its steps"""
    m = np.asarray(m, dtype=dtype)
    R_, C = m.shape
    if r["form"] == "lists":
        from scipy import sparse
        data, ix, ptr = [], [], [0]
        for line in (m if r["by"] == "rows" else m.T):
            e = [(k, v) for k, v in enumerate(line) if r["zeros"] or v != 0]
            e = e[::-1] if r["turned"] else e
            data += [v for _, v in e]
            ix += [k for k, _ in e]
            ptr.append(len(ix))
        t = sparse.csr_matrix if r["by"] == "rows" else sparse.csc_matrix
        return t((np.array(data, dtype=dtype), np.array(ix, dtype=int), np.array(ptr)), shape=m.shape), []
    g = r["gap"]
    a, b = (C * g * g, g) if r["by"] == "rows" else (g, R_ * g * g)
    fr, fc = r["flip"] in ("rows", "both"), r["flip"] in ("columns", "both")
    buf = np.full(R_ * C * g * g, 12345, dtype=dtype)
    start = ((R_ - 1) * a if fr else 0) + ((C - 1) * b if fc else 0)
    a, b = -a if fr else a, -b if fc else b
    size = buf.itemsize
    v = np.lib.stride_tricks.as_strided(buf[start:], m.shape, (a * size, b * size))
    v[:] = m
    if readonly:
        v.flags.writeable = False
    return v, [int(s) // size for s in v.strides]


def labels(y, how):
    if how == "list":
        return y.tolist()
    if how in ("series", "shuffled"):
        import pandas as pd
        return pd.Series(y, index=None if how == "series" else np.random.RandomState(len(y)).permutation(len(y)))
    y = y.copy()
    if how == "strided":
        b = np.repeat(y, 2)
        b[1::2] = y[::-1]
        y = b[::2]
    if how == "backwards":
        y = y[::-1].copy()[::-1]
    if how == "readonly":
        y.flags.writeable = False
    return y


def run(case):
    kind, n = case["kind"], case["n"]
    data, bags = p31.world(case)
    near = kind in FREE or case["given"]            # whole numbers would be equally near, or on the limit of a bin
    if not near:
        data, bags = [(np.round(X * 8), y) for X, y in data], [np.round(Z * 8) for Z in bags]
        rng = np.random.RandomState(case["seed"])       # some values are zero, and some examples of bags altogether
        for Z in [X for X, _ in data] + bags:
            Z[rng.rand(*Z.shape) < .15] = 0
        for Z in bags:
            Z[rng.rand(len(Z)) < .2] = 0
    start = [[p, p31.settings(kind, n)[p][k]] for p, k in case["start"]]
    evs, o = [], make(kind, start)
    told = [Reading(.125).fit(X, y) for X, y in data] if case["given"] else None
    known = None
    for h in case["hist"]:
        c, r = h["c"], dict(h["r"])
        if r["form"] == "lists" and (kind in DENSE or case["given"]):
            r = dict(r, form="strided", gap=1 + int(r["turned"]), flip=["no", "both"][int(r["zeros"])], zeros=False, turned=False)
        m = (data[c - 1][0] if h["op"] == "fit" else bags[c - 1])
        if case["given"]:
            m = told[(c if h["op"] == "fit" else known) - 1].predict_proba(m)
        (s, steps), exc = call(store, m, r, "float64" if near else h["dtype"], h["readonly"])
        ev = dict(ev=h["op"], c=c, r=r, R=m.shape[0], C=m.shape[1], steps=steps, kind=kind, given=case["given"], dtype="float64" if near else h["dtype"], y=h["y"], new=not evs, out=[])
        if h["op"] == "fit":
            y = labels(data[c - 1][1], h["y"])
            if known:
                new = make(kind, start)
                if p31.places(kind):
                    o.set_params(**{p: getattr(new, p) for p in p31.places(kind)})
            if case["given"]:
                p31.fresh_bags(o, kind)
                if p31.places(kind):
                    o.set_params(**{p: None for p in p31.places(kind)})
                _, ev["exc"] = call(o.fit, data[c - 1][0], y, predictions_train=s, limit=100)
            else:
                _, ev["exc"] = call(p31.fit, o, kind, s, y, limit=100)
            known = c
        else:
            if case["given"]:
                out, ev["exc"] = call(lambda: V(o.predict(None, predictions_test=s)), limit=100)
            else:
                out, ev["exc"] = call(p31.answer, o, kind, s, limit=100)
            if kind == "FriedmanME" and ev["exc"] == "ValueError":
                out, ev["exc"] = ["flat"], ""        # the search refuses distances that are the same everywhere, in any storage
            ev["out"] = out if not ev["exc"] else []
        evs.append(ev)
        if ev["exc"]:
            break
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    c = dict(Rows="2", Cols="3", Reader='"whole"')
    inv = ["Faithful", "Consistent"]
    chk.mc("MCStorage", dict(c, Depth=str(chk.n(2, 3))), inv + ["EveryTable"])
    for reader in ("hasty", "rows"):
        chk.mc("MCStorage", dict(c, Depth="3", Reader='"%s"' % reader), ["Consistent"], refuted="Consistent")
    beh = chk.mc("MCStorage", dict(c, Depth="5"), inv + ["Export"], emit=True, workers=1,
                 args=("-simulate", "num=%d" % chk.n(400, 4000), "-seed", str(chk.seed), "-depth", "7"))
    beh.sort(key=str)
    cases = []
    for kind in sorted(MOD):
        slow = kind in ("EoQ", "REGX", "REGy")
        free = kind in FREE
        for r in range(chk.n(8 if slow else 30, 40 if slow else 200)):
            n = 2 if kind in BINARY or kind not in ORDINAL and r % 2 else 3
            v = p31.settings(kind, n)
            given = not free and kind not in MODELS and kind not in WRAP and kind != "OrdinalQuantificationTree" and r % 3 == 0
            h = [dict(e, dtype=["float64", "int64", "int32", "float32"][int(rng.randint(4))], readonly=bool(rng.randint(2)),
                      y=["array", "strided", "backwards", "readonly", "list", "series", "shuffled"][int(rng.randint(7))]) for e in beh[int(rng.randint(len(beh)))]]
            # every content asked is asked once more as a plain table
            plain = dict(form="strided", by="rows", gap=1, flip="no", zeros=False, turned=False)
            for e in list(h[-1:]):
                if e["op"] == "ask":
                    h.append(dict(e, r=plain, dtype="float64", readonly=False))
            last = [e for e in h if e["op"] == "fit"][-1]
            h += [dict(last, r=plain, dtype="float64", readonly=False, y="array")] + [dict(h[-1], op="ask", c=b, r=plain, dtype="float64", readonly=False) for b in (1, 2)]
            cases.append(dict(kind=kind, n=n, names=LABELS[int(rng.randint(len(LABELS)))], seed=int(rng.randint(10 ** 6)), hist=h, given=given,
                              start=[[p, int(rng.randint(len(v[p])))] for p in sorted(v) if p != "gain" and rng.rand() < .3]))
    chk.validate("TraceStorage", chk.record(run, cases))
    return chk.finish(assumptions=["tables read by classifiers hold whole numbers (exact in every element type used); other tables are of type double", "methods that histogram or measure features themselves (DFX, HDX, EDX, REGX, nearest neighbours), EoQ and cross-validation work with dense tables only"])
