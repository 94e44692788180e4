"""P28: calls never modify the caller's data or template objects."""
import numpy as np, hashlib
from copy import deepcopy
from core import *
from gen import LABELS, make_labels
import zoo, protocol

LAYOUTS = ("C", "F", "strided", "readonly", "column-of-table")


def lay(a, how):
    """the same array in another layout; returns it and the array that owns its memory"""
    a = np.array(a)
    if how == "F":
        a = np.asfortranarray(a)
        return a, a
    if how == "strided":
        big = np.repeat(a, 2, axis=0)
        return big[::2], big
    if how == "column-of-table":
        if a.ndim == 1:
            big = np.stack([a, a], axis=1)
            return big[:, 0], big
        big = np.concatenate([a, a], axis=-1)
        return big[..., :a.shape[-1]], big
    if how == "readonly":
        a.setflags(write=False)
    return a, a


class World:
    def __init__(self, seed, layout, names, n):
        self.n, self.labels = n, make_labels(names, n)
        self.rng = rng = np.random.RandomState(seed)
        X, y = zoo.ordered(rng, n, rng.choice([6, 7, 9], n))
        Z, z = zoo.ordered(rng, n, rng.choice([3, 5], n))
        fitted = zoo.Cls().fit(X, self.labels[y - 1])
        bags = np.array([np.concatenate([rng.choice(np.where(y == c)[0], 3) for c in range(1, n + 1)]) for _ in range(5)]).T
        p = rng.dirichlet(np.ones(n), 6)
        a = dict(X=X, y=self.labels[y - 1], Z=Z, P=fitted.predict_proba(X), Q=fitted.predict_proba(Z), C=fitted.predict(X), D=fitted.predict(Z),
                 P3=np.stack([fitted.predict_proba(X)] * 5, axis=1), Q3=np.stack([fitted.predict_proba(Z)] * 5, axis=1),
                 bags=bags, prev=np.array([(y[bags] == c).mean(axis=0) for c in range(1, n + 1)]), p=p[0], q=p[1], zero=np.eye(n)[0], onehot=np.eye(n)[y - 1], both=p,
                 pf=np.array([.25]), qf=np.array([.5]),
                 R=fitted_binary(X, y, n, X), S=fitted_binary(X, y, n, Z), O=fitted_ordinal(X, y, n, X), U=fitted_ordinal(X, y, n, Z),
                 T=rng.dirichlet(np.ones(5), n).T, t=rng.dirichlet(np.ones(5)).reshape(-1, 1), groups=np.arange(len(y)) % 3, y2=np.where(y == 1, 1, 0), A=rng.rand(4, 3), B=rng.rand(4, 3))
        self.arrays, self.owners = {}, {}
        for k, v in a.items():
            self.arrays[k], self.owners[k] = lay(v, layout)
            setattr(self, k, self.arrays[k])
        self.templates = []

    def keep(self, name, t):
        """a template the caller still owns"""
        self.templates.append((name, t))
        return t

    def digest(self):
        out = {}
        for k in self.arrays:
            o = self.owners[k]
            out["array " + k] = protocol.digest(o)[:10] + str(o.flags.writeable)[0] + str(self.arrays[k].shape)
        for i, (name, t) in enumerate(self.templates):
            out["template %d %s" % (i, name)] = hashlib.md5(protocol.learned(t).encode()).hexdigest()[:10]
        return out


def fitted_binary(X, y, n, Z):
    return np.column_stack([zoo.Cls().fit(X, y == c).predict_proba(Z)[:, 1] for c in range(1, n + 1)])


def fitted_ordinal(X, y, n, Z):
    return np.column_stack([zoo.Cls().fit(X, y <= c).predict_proba(Z)[:, 1] for c in range(1, n)])


def calls(n):
    """name -> function of the world, every public call of the library (n classes)"""
    c = {}
    # quantifiers, with estimators and with given predictions
    for i, cfg in enumerate(zoo.settings()):
        if cfg.get("multi" if n == 2 else "binary"):
            continue
        rl = zoo.role(cfg)[0]

        def quantify(w, cfg=cfg, rl=rl, given=True, shared=False):
            if rl == "tree":
                q = zoo.make(cfg, None, w.keep("estimator", zoo.Cls()))
            elif rl == "X" or given:
                q = zoo.make(cfg)
            else:
                e = zoo.estimator(rl)
                q = zoo.make(cfg, e, e if shared else zoo.estimator(rl))
            for a, t in protocol.templates(q):
                w.keep(a, t)
            yield
            if not given or rl in ("X", "tree"):
                zoo.fit(q, cfg, w.X, w.y)
                yield
                zoo.predict(q, cfg, w.Z)
                yield
                zoo.predict(q, cfg, w.X)
                return
            tr, te = dict(crisp=(w.C, w.D), ovr=(w.R, w.S) if n > 2 else (w.P, w.Q), fh=(w.O, w.U)).get(rl, (w.P, w.Q))
            zoo.fit(q, cfg, w.X, w.y, tr)
            yield
            zoo.predict(q, cfg, w.Z, te)
            yield
            if rl == "crisp" and not cfg["kind"].startswith("EoQ"):
                zoo.fit(q, cfg, w.X, w.y, w.P)
                yield
                zoo.predict(q, cfg, w.Z, w.Q)
        c["%s %d given" % (cfg["kind"], i)] = quantify
        if rl not in ("X", "tree"):
            c["%s %d estimators" % (cfg["kind"], i)] = lambda w, f=quantify: f(w, given=False)
            c["%s %d shared estimator" % (cfg["kind"], i)] = lambda w, f=quantify: f(w, given=False, shared=True)

    def simple(name, f):
        def g(w):
            yield
            f(w)
        c[name] = g
    from quantificationlib.metrics import multiclass as M, binary as B, ordinal as O
    for f in ("kld", "mean_absolute_error", "l1", "mean_squared_error", "l2", "hd", "bray_curtis", "topsoe", "jensenshannon", "probsymmetric"):
        simple("metric " + f, lambda w, f=f: (getattr(M, f)(w.p, w.q), getattr(M, f)(w.zero, w.q), getattr(M, f)(w.p, w.zero)))
    simple("brier_multi", lambda w: M.brier_multi(w.onehot, w.P))
    simple("geometric_mean", lambda w: M.geometric_mean(w.y, w.C))
    for f in ("binary_kld", "bias", "absolute_error", "squared_error", "relative_absolute_error", "symmetric_absolute_percentage_error", "normalized_absolute_score", "normalized_squared_score"):
        simple("metric " + f, lambda w, f=f: (getattr(B, f)(w.pf, w.qf), getattr(B, f)(w.pf[0], w.qf[0])))
    for f in ("emd", "emd_score"):
        simple("metric " + f, lambda w, f=f: getattr(O, f)(w.p, w.q))
    simple("emd_distances", lambda w: O.emd_distances(w.A, w.B))
    from quantificationlib import bag_generator as G
    for name, kw in (("PriorShift_BagGenerator", {}), ("PriorShift_BagGenerator", dict(method="Dirichlet")), ("PriorShift_BagGenerator", dict(min_prevalence=.1)),
                     ("CovariateShift_BagGenerator", {}), ("PriorAndCovariateShift_BagGenerator", {}), ("PriorAndCovariateShift_BagGenerator", dict(method="Dirichlet"))):
        simple("%s %s" % (name, kw), lambda w, name=name, kw=kw: getattr(G, name)(n_bags=3, bag_size=8, random_state=1, **kw).generate_bags(w.X, w.y))
    simple("given Dirichlet parameters", lambda w: G.PriorShift_BagGenerator(n_bags=3, bag_size=8, random_state=1, method="Dirichlet", alphas=w.p).generate_bags(w.X, w.y))
    simple("given minimum prevalences", lambda w: G.PriorShift_BagGenerator(n_bags=3, bag_size=20, random_state=1, min_prevalence=w.arrays["p"] / 4).generate_bags(w.X, w.y))
    from quantificationlib.estimators.cross_validation import CV_estimator
    for k, kw in (("predictions", {}), ("averages", dict(averaged_predictions=False)), ("crisp", dict(voting="soft"))):
        def cv(w, kw=kw):
            e = CV_estimator(estimator=w.keep("estimator", zoo.Cls()), cv=3, **{a: b for a, b in kw.items() if a == "averaged_predictions"})
            yield
            e.fit(w.X, w.y)
            yield
            e.predict(w.X), e.predict_proba(w.X)
            yield
            e.predict(w.Z), e.predict_proba(w.Z)
        c["CV_estimator " + k] = cv

    def groups(w):
        from sklearn.model_selection import GroupKFold
        e = CV_estimator(estimator=w.keep("estimator", zoo.Cls()), cv=GroupKFold(3), groups=w.groups)
        yield
        e.fit(w.X, w.y)
        yield
        e.predict_proba(w.X)
    c["CV_estimator groups"] = groups
    from quantificationlib.estimators.ensembles import EnsembleOfClassifiers

    def ensemble(w):
        e = EnsembleOfClassifiers(base_estimator=w.keep("base_estimator", zoo.Cls()))
        yield
        e.fit(w.X, w.y, w.bags)
        yield
        e.predict(w.Z), e.predict_proba(w.Z)
    c["EnsembleOfClassifiers"] = ensemble
    from quantificationlib.estimators.frank_and_hall import FrankAndHallMonotoneClassifier, FrankAndHallClassifier, FrankAndHallTreeClassifier, FHLabelBinarizer
    from quantificationlib.estimators.ordinal_ddag import DDAGClassifier

    def classifier(make):
        def g(w):
            e = make(w.keep("estimator", zoo.Cls()))
            yield
            e.fit(w.X, w.y)
            yield
            e.predict(w.Z), e.predict_proba(w.Z)
        return g
    c["FrankAndHallClassifier"] = classifier(lambda e: FrankAndHallClassifier(e))
    c["FrankAndHallMonotoneClassifier"] = classifier(lambda e: FrankAndHallMonotoneClassifier(e))
    c["FrankAndHallTreeClassifier"] = classifier(lambda e: FrankAndHallTreeClassifier(e))
    c["DDAGClassifier"] = classifier(lambda e: DDAGClassifier(e))
    c["DDAGClassifier winner"] = classifier(lambda e: DDAGClassifier(e, predict_method="winner_node"))
    simple("FHLabelBinarizer", lambda w: FHLabelBinarizer().fit(w.y).transform(w.y))
    from quantificationlib.estimators.weighted_knn import PWK

    def knn(w):
        e = PWK(n_neighbors=3)
        yield
        e.fit(w.X, w.y)
        yield
        e.predict(w.Z), e.predict_proba(w.Z), e.predict(w.X)
    c["PWK"] = knn
    from quantificationlib.ensembles.eoq import EoQ
    from quantificationlib.baselines.ac import PAC
    from quantificationlib.multiclass.df import HDX
    for k in ("mean", "median", "prevalence_similarity", "distribution_similarity", "all"):
        def given_bags(w, k=k):
            q = EoQ(base_quantifier=w.keep("base_quantifier", PAC()), n_quantifiers=5, combination_strategy=k, n_bins=4)
            yield
            q.fit(w.X, w.y, predictions_train=w.P3, prevalences=w.prev, indexes=w.bags)
            yield
            q.predict(w.Z, predictions_test=w.Q3)
        c["EoQ given bags " + k] = given_bags

        def given_X(w, k=k):
            q = EoQ(base_quantifier=w.keep("base_quantifier", HDX(n_bins=4)), n_quantifiers=5, combination_strategy=k, n_bins=4)
            yield
            q.fit(w.X, w.y, prevalences=w.prev, indexes=w.bags)
            yield
            q.predict(w.Z)
        c["EoQ examples " + k] = given_X

        def ens_est(w, k=k):
            e = EnsembleOfClassifiers(base_estimator=w.keep("base_estimator", zoo.Cls()))
            q = EoQ(base_quantifier=w.keep("base_quantifier", PAC()), n_quantifiers=5, combination_strategy=k, n_bins=4, ensemble_estimator_train=e, ensemble_estimator_test=e)
            yield
            q.fit(w.X, w.y, prevalences=w.prev, indexes=w.bags)
            yield
            q.predict(w.Z)
        c["EoQ ensemble " + k] = ens_est
    from quantificationlib import optimization as Opt, search as S
    from quantificationlib.multiclass.df import compute_bincuts
    simple("solve_l1", lambda w: Opt.solve_l1(w.T, w.t, n))
    simple("solve_hd", lambda w: Opt.solve_hd(w.T, w.t, n))
    simple("solve_l2", lambda w: Opt.solve_l2(w.T, w.t, *Opt.compute_l2_param_train(w.T, w.labels)))
    if n == 2:
        simple("global_search", lambda w: S.global_search(M.l2, S.mixture_of_pdfs, w.t, 1e-4, None, True, pos_distrib=w.T[:, 1].reshape(-1, 1), neg_distrib=w.T[:, 0].reshape(-1, 1)))
        simple("compute_quantiles", lambda w: S.compute_quantiles(.3, w.P[:, 1], 4, w.y, w.labels))
    for s in ("equal_width", "equal_count", "normal") + (("binormal",) if n == 2 else ()):
        simple("compute_bincuts " + s, lambda w, s=s: compute_bincuts(w.X[:, 0], w.y, np.unique(w.y), 4, s))
    from quantificationlib.data_utils import normalize
    simple("normalize", lambda w: normalize(w.X, w.Z))
    try:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from quantificationlib.plot.qlplot import plot_line_prevalences, plot_boxes

        def picture(f):
            def g(w):
                fig, ax = plt.subplots()
                yield
                try:
                    f(w, ax)
                finally:
                    plt.close(fig)
            return g
        c["plot_line_prevalences"] = picture(lambda w, ax: (plot_line_prevalences(ax, w.both), plot_line_prevalences(ax, w.both, order="descending")))
        c["plot_boxes"] = picture(lambda w, ax: plot_boxes(ax, w.both))
    except ImportError:
        pass
    return c


def run(case):
    w = World(case["seed"], case["layout"], case["names"], case["n"])
    table = calls(case["n"])
    evs = []
    for name in case["calls"]:
        steps = table[name](w)
        call(next, steps, None)
        evs.append(dict(ev="world", new=not evs, world=w.digest(), exc=""))
        while True:
            r, exc = call(next, steps, "end", limit=60)
            evs.append(dict(ev="call", new=False, name=name, layout=case["layout"], n=case["n"], world=w.digest(), exc=exc))
            if r == "end" or exc:
                break
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    for n in (2, 3):
        names = sorted(calls(n))
        chk.mc("MCPurity", dict(NCalls="4", Layouts='{"C", "F"}', Depth="3"), ["TemplatesUntrained"], properties=["Untouched"], spec="Spec")
        lays = "{%s}" % ", ".join('"%s"' % l for l in LAYOUTS)
        beh = chk.mc("MCPurity", dict(NCalls=str(len(names)), Layouts=lays, Depth="1"), ["TemplatesUntrained", "Export"], emit=True)
        seq = chk.mc("MCPurity", dict(NCalls=str(len(names)), Layouts=lays, Depth="4"), ["TemplatesUntrained", "Export"], emit=True, workers=1,
                     args=("-simulate", "num=%d" % chk.n(8, 40), "-seed", str(chk.seed), "-depth", "6"))
        for b in (beh, seq):
            b.sort(key=str)
        if chk.n(0, 1) == 0:
            # every call on read-only arrays and in one other layout
            other = {c: LAYOUTS[int(rng.randint(len(LAYOUTS)))] for c in range(len(names))}
            beh = [h for h in beh if h[0]["layout"] in ("readonly", other[h[0]["call"]])]
        seq = [seq[int(i)] for i in sorted(rng.choice(len(seq), min(len(seq), chk.n(60, 1500)), replace=False))]
        for h in beh + seq:
            for _ in range(chk.n(1, 4) if len(h) == 1 else 1):
                cases.append(dict(n=n, layout=h[0]["layout"], names=LABELS[int(rng.randint(len(LABELS)))], seed=int(rng.randint(10 ** 6)), calls=[names[e["call"]] for e in h]))
    # histories of the protocol
    cfgs = [c for c in zoo.settings() if zoo.role(c)[0] in ("prob", "crisp", "ovr", "fh") and not c["kind"].startswith("EoQ") and zoo.role(c.get("base", c))[1]]
    for classes, two in ((("Same", [2, 2]), True), (("Three", [3, 3]), False)):
        ok = [c for c in cfgs if not c.get("multi" if two else "binary")]
        num = chk.n(60, 800)
        beh = protocol.histories(chk, "RolesTrain", "{0, 1}", classes[0], "{1, 2}", "{0, 11, 12}", 6, num, exhaustive=0)
        beh.sort(key=str)
        hist = [dict(cfg=ok[int(rng.randint(len(ok)))], hist=beh[int(rng.randint(len(beh)))], seed=int(rng.randint(10 ** 6)), names=LABELS[i % len(LABELS)], classes=classes[1], sizes=0, bags=2,
                     tol="1/1000000", want=["pure"]) for i in range(num)]
        chk.validate("TraceProtocol", chk.record(protocol.run, hist))
    chk.validate("TracePurity", chk.record(run, cases))
    return chk.finish(assumptions=["a template is judged by what it has learnt (attributes that scikit-learn conventions call fitted)", "the number of bags of a generator given to an ensemble is a parameter the ensemble may set"])
