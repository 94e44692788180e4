"""P30: settings left out have their documented values."""
import contextlib, io
import numpy as np
from core import *
from gen import LABELS, make_labels
import zoo
from p06 import rows

A = dict(n_bins=("8", "9"), bin_strategy=("equal_width", "normal", "equal_count"), tol=("1e-05", "0.001"), distance=("HD", "L2", "L1"), distribution_function=("PDF", "CDF"))
G = dict(n_bags=("1000", "7"), bag_size=("None", "11"), method=("Uniform", "Dirichlet"), alphas=("None", "0.5"), min_prevalence=("None", "0.1"), random_state=("2032", "5"))
NEAR = dict(n_neighbors=("10", "11", "1"), p=("2", "1", "3"), metric=("minkowski", "chebyshev"), metric_params=("None",))
# kind: setting -> the documented value (checked against the specification by TLC), then others
VALUES = dict(
    PriorShift_BagGenerator=G, PriorAndCovariateShift_BagGenerator=G, CovariateShift_BagGenerator={k: G[k] for k in ("n_bags", "bag_size", "random_state")},
    AC=dict(distance=("HD", "L2", "L1")), PAC=dict(distance=("L2", "L1", "HD")), EM=dict(epsilon=("0.0001", "1e-15"), max_iter=("1000", "3")),
    DFy=A, DFX=A, HDy={k: A[k] for k in ("n_bins", "bin_strategy", "tol")}, MMy={k: A[k] for k in ("n_bins", "bin_strategy", "tol")}, HDX={k: A[k] for k in ("n_bins", "bin_strategy", "tol")},
    EDy=dict(distance=("manhattan", "euclidean")), CvMy=dict(distance=("manhattan", "euclidean")), EDX=dict(distance=("euclidean", "manhattan")),
    FriedmanME=dict(distance=("L2", "L1", "fhd", "fl2"), tol=("1e-05", "0.001")), SORDy=dict(tol=("1e-05", "0.001")),
    QUANTy=dict(n_quantiles=("8", "9"), distance=("l2", "fl1"), tol=("1e-05", "0.001")),
    PWKQuantifier=NEAR, PWK=NEAR,
    REGX=dict(bag_generator=("prior shift", "other"), n_bins=("8", "5"), bin_strategy=("normal", "equal_width")),
    REGy=dict(bag_generator=("prior shift", "other"), n_bins=("8", "5"), bin_strategy=("equal_width", "normal")),
    PDFOrdinaly=dict(n_bins=("8", "9"), distance=("L2", "L1", "HD"), method=("full_probabilistic", "winner_node"), tol=("1e-05", "0.001")),
    EoQ=dict(n_quantifiers=("100", "7", "30"), combination_strategy=("mean", "distribution_similarity", "median"), distribution_function=("PDF", "CDF"), n_bins=("100", "5"),
             bin_strategy=("equal_width", "normal"), distance_bags=("euclidean", "cityblock"), percentage_of_selected_models=("0.5", "0.2")),
    DDAGClassifier=dict(predict_method=("full_probabilistic", "winner_node")), FrankAndHallTreeClassifier=dict(performance_measure=("binary_kld", "absolute_error")),
    CV_estimator=dict(cv=("5", "3"), averaged_predictions=("True", "False"), voting=("hard", "soft")), FHLabelBinarizer=dict(neg_label=("0", "-1"), pos_label=("1", "2")),
    compute_bincuts=dict(n_bins=("8", "9"), bin_strategy=("equal_width", "normal", "equal_count")))
VALUES.update((k, {}) for k in ("CC", "PCC", "DeBias", "ACOrdinal", "OneVsRestQuantifier", "FrankAndHallQuantifier", "OrdinalQuantificationTree"))
CRISP, BINARY = ("AC", "CC", "ACOrdinal"), ("SORDy", "QUANTy", "DeBias")


def value(kind, name, text):
    from quantificationlib.metrics import binary, multiclass
    from quantificationlib import bag_generator
    if name == "bag_generator":
        return bag_generator.PriorShift_BagGenerator() if text == "prior shift" else bag_generator.PriorShift_BagGenerator(n_bags=20)
    if name == "distance" and text in ("l2", "fl1", "fl2", "fhd"):
        return dict(l2=multiclass.l2, fl1=multiclass.l1, fl2=multiclass.l2, fhd=multiclass.hd)[text]
    if text in ("manhattan", "euclidean") and name == "distance":
        return zoo.metric(text)
    if name == "performance_measure":
        return getattr(binary, text)
    if text in ("None", "True", "False"):
        return eval(text)
    try:
        return int(text)
    except ValueError:
        pass
    try:
        return float(text)
    except ValueError:
        return text


class Odd(zoo.Cls):
    """ a classifier with an error of its own for every split """

    def fit(self, X, y):
        self.bias_ = np.random.RandomState(int(np.sum(y == np.max(y))) + len(y)).rand()
        return super().fit(X, y)

    def predict_proba(self, X):
        return .3 * super().predict_proba(X) + .7 * np.array([1 - self.bias_, self.bias_])


def data(kind, n, seed):
    """ the question: training set and bag, with predictions """
    rng = np.random.RandomState(seed)
    s = rng.randint(2, 40, n) if "Tree" in kind else rng.randint(9, 16, n)
    y = rng.permutation(np.repeat(np.arange(1, n + 1), s))
    z = rng.randint(1, n + 1, rng.choice([7, 12, 30]))
    noise = rng.choice([1.5, 6.])
    put = lambda c: np.stack([c * (1 if j else -1) for j in range(2)], axis=1) + rng.randn(len(c), 2) * noise
    X, Z = put(y), put(z)
    P, Q = rows(rng, y, n, .5), rows(rng, z, n, .5)
    if kind == "EM" and seed % 2:
        w = [.03, .002][seed % 4 // 2]                    # slow
        P, Q = (1 - w) * s / s.sum() + w * P, (1 - w) * s / s.sum() + w * Q
    if kind in ("AC", "PAC") and seed % 2:                # rates that cannot be inverted: the distance decides
        P[y == 2] = P[y == 1].mean(axis=0)
        if kind == "AC":
            P[y <= 2] = np.eye(n)[0]
    if kind in CRISP:
        P, Q = P.argmax(axis=1), Q.argmax(axis=1)
    return X, y, Z, P, Q


def question(kind, n, names, seed):
    X, y, Z, P, Q = data(kind, n, seed)
    lab = make_labels(names, n)
    yy = lab[y - 1]
    if kind in CRISP:
        P, Q = lab[P], lab[Q]
    return X, yy, Z, P, Q


def ask(kind, kw, X, y, Z, P, Q):
    import quantificationlib.bag_generator as bg
    if kind.endswith("BagGenerator"):
        g = getattr(bg, kind)(**kw)
        prev, ix = g.generate_bags(X, y)
        ix = np.asarray(ix, dtype=float)
        w = np.random.RandomState(7).rand(ix.shape[0])
        return [float(ix.shape[1]), float(ix.shape[0]), float((w @ ix).sum()), float((w @ (ix ** 2 % 7)).sum())] + list(np.asarray(prev)[:, [0, -1]].ravel()) + list(np.asarray(prev).sum(axis=1))
    if kind == "compute_bincuts":
        from quantificationlib.multiclass.df import compute_bincuts
        return compute_bincuts(X, y, classes=np.unique(y), **kw).ravel()
    if kind == "PWK":
        from quantificationlib.estimators.weighted_knn import PWK
        m = PWK(**kw)
        m.fit(X, y)
        u = list(np.unique(y))
        return [float(u.index(c)) for c in m.predict(np.concatenate([X, Z]))]
    if kind == "PWKQuantifier":
        from quantificationlib.multiclass.knn import PWKQuantifier
        q = PWKQuantifier(**kw)
        q.fit(X, y)
        return list(q.predict(Z)) + [v for z in np.concatenate([Z, X]) for v in q.predict(z[None])]
    if kind == "DDAGClassifier":
        from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
        return DDAGClassifier(zoo.Cls(), **kw).fit(X, y).predict_proba(Z).ravel()
    if kind == "FrankAndHallTreeClassifier":
        from quantificationlib.estimators.frank_and_hall import FrankAndHallTreeClassifier
        return np.asarray(FrankAndHallTreeClassifier(Odd(), **kw).fit(X, y).predict_proba(Z)).ravel()
    if kind == "CV_estimator":
        from quantificationlib.estimators.cross_validation import CV_estimator
        m = CV_estimator(zoo.Cls(), **kw).fit(X, y)
        u = list(np.unique(y))
        a = np.asarray(m.predict(Z)).ravel()
        return [float(u.index(c)) for c in a] + list(np.asarray(m.predict_proba(Z)).ravel()) + [float(len(m.estimators_))]
    if kind == "FHLabelBinarizer":
        from quantificationlib.estimators.frank_and_hall import FHLabelBinarizer
        return FHLabelBinarizer(**kw).fit(y).transform(y).ravel()
    if kind in ("OneVsRestQuantifier", "FrankAndHallQuantifier", "OrdinalQuantificationTree"):
        from quantificationlib.multiclass.energy import EDX
        q = zoo.make(dict(kind={"F": "FHX", "O": "OVRX"}[kind[0]], base=dict(kind="EDX"))) if "Tree" not in kind else zoo.make(dict(kind="OQT"), None, zoo.Cls())
        q.fit(X, y)
        return q.predict(Z)
    if kind == "EoQ":
        from quantificationlib.ensembles.eoq import EoQ
        from quantificationlib.multiclass.energy import EDX
        q = EoQ(base_quantifier=EDX(), **kw)
        q.fit(X, y)
        return [v for k in range(0, len(Z), 3) for v in q.predict(Z[k:])]
    import importlib
    mod = dict(AC="baselines.ac", PAC="baselines.ac", EM="multiclass.em", DFy="multiclass.df", HDy="multiclass.df", MMy="multiclass.df", DFX="multiclass.df", HDX="multiclass.df", EDy="multiclass.energy",
               CvMy="multiclass.energy", EDX="multiclass.energy", FriedmanME="multiclass.friedman", SORDy="binary.emd", QUANTy="binary.quantiles", REGX="multiclass.regression", REGy="multiclass.regression",
               PDFOrdinaly="ordinal.pdf", CC="baselines.cc", PCC="baselines.cc", DeBias="binary.debias", ACOrdinal="ordinal.ac_ordinal")[kind]
    q = getattr(importlib.import_module("quantificationlib." + mod), kind)(**kw)
    if kind.endswith("X"):
        q.fit(X, y)
        return q.predict(Z)
    q.fit(X, y, **({} if kind in ("CC", "PCC") else dict(predictions_train=P)))
    return q.predict(None, predictions_test=Q)


def run(case):
    kind, n = case["kind"], case["n"]
    names = sorted(VALUES[kind])
    rng = np.random.RandomState(case["seed"])
    evs = []
    qs = [(dict(seed=int(rng.randint(10 ** 6)))) for _ in range(case["questions"])]
    near = kind in ("HDy", "MMy", "HDX")
    pick = {p: VALUES[kind][p][int(rng.randint(1, max(2, len(VALUES[kind][p])))) % len(VALUES[kind][p])] for p in names}
    pick.update(case.get("pick", {}))
    for o in case["objects"]:
        given = []
        for i, p in enumerate(names):
            how = o[case["slots"][i] % len(o)]
            if how == "left out":
                continue
            given.append([p, VALUES[kind][p][0] if how == "documented" else pick[p]])
        todo = [(kind, given)]
        if near:
            up = {"HDy": "DFy", "MMy": "DFy", "HDX": "DFX"}[kind]
            todo.append((up, given + ([["distribution_function", "CDF"], ["distance", "L1"]] if kind == "MMy" else [["distribution_function", "PDF"], ["distance", "HD"]])))
        for kd, gv in todo:
            for q in qs:
                D = question(kind, n, case["names"], q["seed"])
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    ans, exc = call(lambda: ask(kd, {p: value(kd, p, t) for p, t in gv}, *[d.copy() for d in D]), limit=200)
                evs.append(dict(ev="made", new=not evs, kind=kd, given=gv, asks="%s/%d/%s/%d" % (kind, n, case["names"], q["seed"]), plain=not gv, silent=True, printed=bool(out.getvalue().strip()), exc=exc.split(":")[0], why=exc, out=V(ans) if not exc else []))
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    chk.mc("MCDefaults", dict(Slots="1", Depth="1", Careful="TRUE", Judge="TRUE"), ["Reached", "Explicit", "Distinct"])
    chk.mc("MCDefaults", dict(Slots="1", Depth="1", Careful="FALSE", Judge="TRUE"), ["Reached"], refuted="Reached")
    beh = chk.mc("MCDefaults", dict(Slots=str(chk.n(2, 3)), Depth=str(2), Careful="TRUE", Judge="FALSE"), ["Export"], emit=True)
    beh.sort(key=str)
    cases = []
    slow = ("EoQ", "REGX", "REGy")
    for kind in sorted(VALUES):
        for r in range(chk.n(2 if kind in slow else 4, 6 if kind in slow else 24)):
            n = 3 if "Ord" in kind or "Frank" in kind or "DDAG" in kind else 2 if kind in BINARY or r % 2 else 3
            n += kind == "FrankAndHallTreeClassifier" and 3
            m = len(VALUES[kind])
            h = beh[int(rng.randint(len(beh)))] + beh[int(rng.randint(len(beh)))]
            first = [["left out"], ["documented"]]
            cases.append(dict(kind=kind, n=n, names=LABELS[r % len(LABELS)], seed=int(rng.randint(10 ** 6)), questions=1 if kind in slow else 20 if "Tree" in kind else 2, slots=[0] * m, objects=first))
            # one setting left out, the others not as documented
            for j in range(m):
                cases.append(dict(kind=kind, n=n, names=LABELS[j % len(LABELS)], seed=int(rng.randint(10 ** 6)), questions=1, slots=[0 if i == j else 1 for i in range(m)], objects=[["left out", "other"], ["documented", "other"]],
                                  pick=dict(combination_strategy="distribution_similarity", n_quantifiers="30", percentage_of_selected_models="0.4") if kind == "EoQ" else dict(epsilon="1e-15") if kind == "EM" else dict(distance="fl2") if kind in ("DFy", "DFX") and n == 2 else {}))
            cases.append(dict(kind=kind, n=n, names="int1", seed=int(rng.randint(10 ** 6)), questions=1, slots=[int(v) for v in rng.randint(0, 6, m)], objects=h))
    chk.validate("TraceDefaults", chk.record(run, cases))
    return chk.finish(assumptions=["documented values are those of the docstrings of the classes, as written in the specification"])
