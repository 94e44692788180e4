"""P31: settings can be read and changed, and objects cloned and copied."""
import pickle
import importlib
import numpy as np
from copy import deepcopy
from sklearn.base import clone
from core import *
from gen import LABELS, make_labels
import zoo
from p30 import VALUES, CRISP, BINARY, value

MOD = dict(CC="baselines.cc", PCC="baselines.cc", AC="baselines.ac", PAC="baselines.ac", EM="multiclass.em", DFy="multiclass.df", HDy="multiclass.df", MMy="multiclass.df", DFX="multiclass.df", HDX="multiclass.df",
           EDy="multiclass.energy", CvMy="multiclass.energy", EDX="multiclass.energy", FriedmanME="multiclass.friedman", SORDy="binary.emd", QUANTy="binary.quantiles", DeBias="binary.debias",
           REGX="multiclass.regression", REGy="multiclass.regression", PDFOrdinaly="ordinal.pdf", ACOrdinal="ordinal.ac_ordinal", OrdinalQuantificationTree="ordinal.trees", PWKQuantifier="multiclass.knn",
           OneVsRestQuantifier="decomposition.multiclass", FrankAndHallQuantifier="decomposition.ordinal", EoQ="ensembles.eoq", PWK="estimators.weighted_knn", DDAGClassifier="estimators.ordinal_ddag",
           FrankAndHallTreeClassifier="estimators.frank_and_hall", FrankAndHallClassifier="estimators.frank_and_hall", FrankAndHallMonotoneClassifier="estimators.frank_and_hall", CV_estimator="estimators.cross_validation",
           EnsembleOfClassifiers="estimators.ensembles")
MODELS = ("PWK", "DDAGClassifier", "FrankAndHallTreeClassifier", "FrankAndHallClassifier", "FrankAndHallMonotoneClassifier", "CV_estimator", "EnsembleOfClassifiers")
FREE = ("DFX", "HDX", "EDX", "REGX", "PWKQuantifier", "PWK", "EoQ")
WRAP = dict(OneVsRestQuantifier="base_quantifier", FrankAndHallQuantifier="quantifier", EoQ="base_quantifier")
INNER = dict(DDAGClassifier="estimator", FrankAndHallTreeClassifier="estimator", FrankAndHallClassifier="estimator", FrankAndHallMonotoneClassifier="estimator", CV_estimator="estimator", EnsembleOfClassifiers="base_estimator")
ORDINAL = ("ACOrdinal", "PDFOrdinaly", "OrdinalQuantificationTree", "FrankAndHallQuantifier", "DDAGClassifier") + MODELS[2:5]


def settings(kind, n=2):
    """name -> values as text, the first one without being given"""
    v = {p: list(t) for p, t in VALUES.get(kind, {}).items() if p not in ("bag_generator", "performance_measure", "metric_params")}
    if kind == "FrankAndHallTreeClassifier":
        v["performance_measure"] = ["binary_kld", "absolute_error"]
    if kind == "EoQ":
        v["n_quantifiers"] = ["100", "7", "12"]
        v["base_quantifier__bin_strategy"] = ["equal_width", "equal_count"]
    if kind == "PDFOrdinaly":
        v.pop("method")                  # the other one needs an estimator of its own
    if kind in WRAP and kind != "EoQ":
        v["%s__distance" % WRAP[kind]] = ["HD", "L2", "L1"]
    if "tol" in v:
        v["tol"] = ["1e-05", "0.05"]
    if kind not in FREE:
        v["gain"] = ["0.125", "0.5"]
    if n > 2 and "distance" in v:          # the user's distances are for two classes
        v["distance"] = [t for t in v["distance"] if not t.startswith("f")]
    return v


def places(kind):
    """the parameters that hold estimators"""
    if kind in FREE:
        return []
    if kind in INNER:
        return [INNER[kind]]
    return ["estimator_test"] if kind in ("CC", "PCC", "OrdinalQuantificationTree") else ["estimator_train", "estimator_test"]


def gains(kind):
    return [p + ("__estimator" if kind in ("OneVsRestQuantifier", "FrankAndHallQuantifier", "OrdinalQuantificationTree") else "") + "__gain" for p in places(kind)]


class Tilted(zoo.Cls):
    """the setting of this classifier matters to its crisp predictions, too; binary models have an error of their own"""

    def fit(self, X, y):
        super().fit(X, y)
        b = np.random.RandomState(int(np.sum(y == self.classes_[-1])) + 100 * len(y)).rand(len(self.classes_)) + .1
        self.bias_ = b / b.sum()
        return self

    def predict_proba(self, X):
        w = super().predict_proba(X)
        a = self.gain + (.1 if len(self.classes_) > 2 else .4)
        return (1 - a) * w + a * self.bias_


class Off(zoo.Cls):
    """binary models whose errors are ranked differently by different measures"""

    def fit(self, X, y):
        super().fit(X, y)
        p, k = np.mean(y == self.classes_[-1]), np.random.RandomState(int(np.sum(y == self.classes_[-1])) + 100 * len(y)).rand()
        q = p + (.02 + .25 * p * (1 - p) * (1 + k / 2)) * (1 - 2 * p if abs(p - .5) > .2 else 1)
        self.off_ = np.array([1 - q, q])
        return self

    def predict_proba(self, X):
        w = super().predict_proba(X)
        return (1 - self.gain / 4) * self.off_ + self.gain / 4 * w


def estimator(kind, gain):
    e = Off(gain) if kind == "FrankAndHallTreeClassifier" else Tilted(gain)
    if kind == "OneVsRestQuantifier":
        from sklearn.multiclass import OneVsRestClassifier
        return OneVsRestClassifier(e)
    if kind == "FrankAndHallQuantifier":
        from quantificationlib.estimators.frank_and_hall import FrankAndHallClassifier
        return FrankAndHallClassifier(e)
    return e


def base(kind):
    from quantificationlib.multiclass.df import HDX
    from quantificationlib.multiclass.df import DFy
    return HDX() if kind == "EoQ" else DFy()


def make(kind, given):
    given = dict(given)
    gain = float(given.pop("gain", "0.125"))
    nested = {p: given.pop(p) for p in list(given) if "__" in p}
    kw = {p: value(kind, p, t) for p, t in given.items()}
    if kind in WRAP:
        b = base(kind)
        for p, t in nested.items():
            setattr(b, p.split("__")[1], t)
        kw[WRAP[kind]] = b
    e = estimator(kind, gain)
    kw.update((p, e) for p in places(kind))
    return getattr(importlib.import_module("quantificationlib." + MOD[kind]), kind)(**kw)


def change(obj, kind, p, t):
    v = float(t) if p == "gain" else t if "__" in p else value(kind, p, t)
    obj.set_params(**{n: v for n in (gains(kind) if p == "gain" else [p])})


def swap(obj, kind, gain):
    e = estimator(kind, gain)
    if kind == "OrdinalQuantificationTree":
        obj.set_params(estimator_test__estimator=e, estimator_test=clone(obj.estimator_test))
        return
    obj.set_params(**{p: e for p in places(kind)})


def read(obj, kind):
    """the settings as text"""
    if obj is None:
        return []
    par = obj.get_params()
    repr(obj)
    out = []
    for p, texts in settings(kind).items():
        got = [par[n] for n in (gains(kind) if p == "gain" else [p])]
        hit = []
        for t in texts:
            want = float(t) if p == "gain" else t if "__" in p else value(kind, p, t)
            if p == "cv":              # folds may be described by their number
                got = [5 if g is None else getattr(g, "n_splits", g) for g in got]
            if all(type(g) == type(want) and g == want or g is want for g in got):
                hit.append(t)
        out.append([p, hit[0] if hit else repr(got)])
    return out


def world(case):
    n, rng = case["n"], np.random.RandomState(case["seed"])
    lab = make_labels(case["names"], n)
    tree = case["kind"] == "FrankAndHallTreeClassifier"
    data, bags = [], []
    for i in range(2):
        X, y = zoo.ordered(rng, n, rng.choice([6, 7, 9] if not tree else np.arange(2, 41), n), 2, spread=[6, 9][i], near=[2, 1][i])
        data.append((X + (0, .4)[i], lab[y - 1]))
        bags.append(zoo.ordered(rng, n, rng.choice([1, 3, 8], n), 2, near=1)[0])
    return data, bags


def fresh_bags(obj, kind):
    """a generator keeps the bags it has drawn, every fit is given another one"""
    if kind in ("REGX", "REGy"):
        from quantificationlib.bag_generator import PriorShift_BagGenerator
        obj.set_params(bag_generator=PriorShift_BagGenerator(n_bags=15, random_state=3))


def fit(obj, kind, X, y):
    fresh_bags(obj, kind)
    if kind == "EnsembleOfClassifiers":
        n = len(y)
        return obj.fit(X, y, np.column_stack([np.arange(n), np.arange(n)[::-1], np.roll(np.arange(n), 3)]))
    return obj.fit(X, y)


def answer(obj, kind, Z):
    if kind not in MODELS:
        return V(obj.predict(Z))
    p = np.asarray(obj.predict_proba(Z)).ravel()
    if kind == "CV_estimator":             # votes, too
        p = np.concatenate([p, np.asarray(obj.predict(Z) == obj.classes_[0], dtype=float).ravel()])
    return V(p)


def run(case):
    kind, hist = case["kind"], case["hist"]
    data, bags = world(case)
    vals = settings(kind, case["n"])
    names = sorted(vals)
    free = kind in FREE or kind in INNER        # nothing outside trained
    start = [[p, vals[p][int(k)]] for p, k in case["start"]]
    others = [[p, t[0]] for p, t in vals.items()]
    objs = [None, None]
    objs[0], exc = call(make, kind, start)

    def look():
        out = []
        for o in objs:
            r, x = call(read, o, kind)
            out.append(r if not x else [["get_params", x]])
        return out
    base_ = dict(kind=kind, bare=free, others=others)
    evs = [dict(base_, ev="start", new=True, given=start, exc=exc, read=look())]
    if exc:
        return evs
    # what the specification says, to know which references are needed
    cur = dict((p, t) for p, t in others)
    cur.update((p, t) for p, t in start)
    spec = [dict(s=cur, e=0, l=None), None]
    need = {}
    for h in hist:
        i = h["o"] - 1
        o, s = objs[i], spec[i]
        ev = dict(base_, ev=h["op"], new=False, o=h["o"])
        exc = ""
        if h["op"] == "set":
            if not names:
                continue
            p = case["slots"][h["p"] - 1]
            t = vals[p][(int(h["v"]) - 1) % len(vals[p])] if int(h["v"]) == 1 else vals[p][case["other"][h["p"] - 1] % (len(vals[p]) - 1) + 1]
            renew = p == "gain" and kind in ("OneVsRestQuantifier", "FrankAndHallQuantifier", "OrdinalQuantificationTree")        # their binary models got theirs when they were trained
            _, exc = call(swap, o, kind, float(t)) if renew else call(change, o, kind, p, t)
            ev.update(name=p, value=t, renew=renew)
            spec[i] = dict(s, s=dict(s["s"], **{p: t}), e=0 if renew else s["e"])
        elif h["op"] == "estimator":
            if not places(kind):
                continue
            _, exc = call(swap, o, kind, float(s["s"]["gain"]))
            spec[i] = dict(s, e=0)
        elif h["op"] == "fit":
            X, y = data[h["d"] - 1]
            _, exc = call(fit, o, kind, X.copy(), y.copy(), limit=100)
            e = 0 if free else s["e"] or h["d"]
            spec[i] = dict(s, e=e, l=(tuple(sorted(s["s"].items())), e, h["d"]))
            ev.update(d=h["d"])
        elif h["op"] == "clone":
            objs[1 - i], exc = call(clone, o)
            spec[1 - i] = dict(s, e=0, l=None)
        elif h["op"] == "copy":
            objs[1 - i], exc = call(deepcopy if h["p"] == 1 else lambda q: pickle.loads(pickle.dumps(q)), o)
            spec[1 - i] = s
        else:
            out, exc = call(answer, o, kind, bags[h["d"] - 1].copy(), limit=100)
            if kind == "FriedmanME" and exc == "ValueError":        # the search refuses distances that are the same everywhere
                out, exc = ["-1"], ""
            ev.update(b=h["d"], out=out if not exc else [])
            if s["l"] and s["l"][0] == tuple(sorted(s["s"].items())) and s["l"][1] == s["e"]:
                need.setdefault(s["l"] + (h["d"],), 0)
        ev.update(exc=exc, read=look())
        evs.append(ev)
        if exc:
            return evs
    for st, e, d, b in sorted(need, key=str):
        def ref():
            q = make(kind, st)
            if e:
                q0 = q.estimator_test if kind != "FrankAndHallTreeClassifier" else q.estimator
                q0.fit(*data[e - 1])
            fit(q, kind, *data[d - 1])
            return answer(q, kind, bags[b - 1])
        out, exc = call(ref, limit=100)
        if kind == "FriedmanME" and exc == "ValueError":
            out, exc = ["-1"], ""
        evs.append(dict(base_, ev="reference", new=False, given=[list(v) for v in st], est=e, d=d, b=b, out=out if not exc else [], exc=exc, read=[]))
    return evs


def shared(hist):
    """is an object asked after something happened to its relative?"""
    fitted, later, related = set(), {1: False, 2: False}, False
    for h in hist:
        o = h["o"]
        if h["op"] in ("clone", "copy"):
            related = True
            (fitted.discard if h["op"] == "clone" or o not in fitted else fitted.add)(3 - o)
            later = {1: False, 2: False}
        elif h["op"] == "fit":
            fitted.add(o)
            later[3 - o], later[o] = related, False
        elif h["op"] in ("set", "estimator"):
            fitted.discard(o)
            later[3 - o] = related
        elif o in fitted and later[o]:
            return True
    return False


def main(chk):
    rng = np.random.RandomState(chk.seed)
    c = dict(Names="{1, 2}", Values="{1, 2}", Data="{1, 2}", Bags="{1}", Careful="TRUE")
    chk.mc("MCCopies", dict(c, Depth=str(chk.n(4, 5))), ["Faithful", "ClonesKnowNothing"], properties=["Independent"], spec="Spec")
    chk.mc("MCCopies", dict(c, Depth="4", Careful="FALSE"), ["Faithful"], refuted="Faithful")
    beh = chk.mc("MCCopies", dict(c, Depth=str(chk.n(9, 12)), Bags="{1, 2}"), ["Faithful", "ClonesKnowNothing", "Export"], emit=True, workers=1,
                 args=("-simulate", "num=%d" % chk.n(1500, 20000), "-seed", str(chk.seed), "-depth", str(chk.n(11, 14))))
    beh.sort(key=str)
    telling = [b for b in beh if shared(b)]
    cases = []
    for kind in sorted(MOD):
        names = sorted(settings(kind))
        slow = kind in ("EoQ", "REGX", "REGy")
        for r in range(chk.n(8 if slow else 24, 40 if slow else 120)):
            n = 2 if kind in BINARY or kind not in ORDINAL and r % 2 else 5 if kind == "FrankAndHallTreeClassifier" else 3
            slots = [names[int(k)] for k in rng.permutation(len(names))[:2]] if names else []
            if len(slots) == 1:
                slots = slots * 2
            v = settings(kind, n)
            matter = {}              # settings that count only with others
            if kind == "EoQ" and set(slots) & {"distribution_function", "n_bins", "bin_strategy", "distance_bags", "percentage_of_selected_models"}:
                matter = {"combination_strategy": 1, "distribution_function": int(slots[0] == "n_bins")}
            if "tol" in slots:
                matter = {p: len(v[p]) - 1 for p in ("distance",) if p in v and v[p][-1].startswith("f")}
            start = [[p, matter[p] if p in matter else int(rng.randint(len(v[p])))] for p in names if (rng.rand() < .3 or p in matter) and p not in slots]
            cases.append(dict(kind=kind, n=n, names=LABELS[int(rng.randint(len(LABELS)))], seed=int(rng.randint(10 ** 6)), hist=(telling if r % 2 and telling else beh)[int(rng.randint(10 ** 6)) % len(telling if r % 2 and telling else beh)], slots=slots,
                              start=start, other=[int(rng.randint(9)), int(rng.randint(9))]))
    chk.validate("TraceCopies", chk.record(run, cases))
    return chk.finish(assumptions=["a quantifier whose settings or estimator were changed after its last fit may answer with the old or the new ones", "clones and copies are those of scikit-learn, copy and pickle"])
