"""P26: regression quantifiers."""
import numpy as np
from fractions import Fraction
from sklearn.base import BaseEstimator, RegressorMixin
from sklearn.exceptions import NotFittedError
from core import *
from gen import *

LOG = []


class RecReg(BaseEstimator, RegressorMixin):
    """regressor that records what it is fitted with and asked, and answers from a list"""

    def __init__(self, script=(0.5,)):
        self.script = script

    def fit(self, X, y):
        X, y = np.array(X), np.array(y)
        if hasattr(self, "X_") and self.X_.shape[1] == X.shape[1]:
            # learning goes on: everything it has seen counts
            X, y = np.concatenate([self.X_, X]), np.concatenate([self.y_, y])
        self.X_, self.y_ = X, y
        self.k_ = sum(1 for l in LOG if l[0] == "fit")
        LOG.append(("fit", self.k_, self.X_, self.y_))
        return self

    def predict(self, X):
        if not hasattr(self, "X_"):
            raise NotFittedError("unfitted")
        n = sum(1 for l in LOG if l[0] == "ask" and l[1] == self.k_)
        v = self.script[(self.k_ * 5 + n * 3) % len(self.script)]
        LOG.append(("ask", self.k_, np.array(X), v))
        return np.full(len(X), v)


class Preset:
    """bag generator with given bags"""

    def __init__(self, prevalences, indexes):
        self.prevalences_, self.indexes_, self.n_bags = prevalences, indexes, indexes.shape[1]

    def generate_bags(self, X, y):
        return self.prevalences_, self.indexes_


def generator(g, y, n):
    from quantificationlib.bag_generator import PriorShift_BagGenerator, CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator
    if g["kind"] == "preset":
        ix = np.array(g["bags"]).T - 1
        yy = np.asarray(y)[ix]
        return Preset(np.array([(yy == c).mean(axis=0) for c in range(1, n + 1)]), ix)
    if g["kind"] == "prior":
        return PriorShift_BagGenerator(n_bags=g["n"], bag_size=g["size"], random_state=g["seed"], method=g["method"])
    if g["kind"] == "covariate":
        return CovariateShift_BagGenerator(n_bags=g["n"], bag_size=g["size"], random_state=g["seed"])
    return PriorAndCovariateShift_BagGenerator(n_bags=g["n"], bag_size=g["size"], random_state=g["seed"])


def run(case):
    import warnings
    with warnings.catch_warnings():
        import statsmodels.api
        warnings.simplefilter("ignore")
        return run_(case)


def run_(case):
    from quantificationlib.multiclass.regression import REGX, REGy
    evs = []
    quant = None
    for f, fit in enumerate(case["fits"]):
        n = fit["n"]
        labels = make_labels(case["names"], n)
        y = labels[np.array(fit["y"]) - 1]
        tr, te = fl(fit["rows"]), [fl(t) for t in fit["tests"]]
        probs = case["kind"] == "REGy"
        r = fit.get("reps", 1)
        gen = generator(case["gen"], fit["y"], n) if "bags" not in fit else generator(dict(kind="preset", bags=fit["bags"]), fit["y"], n)
        tpl = RecReg(case["script"]) if case["script"] else None
        if quant is None or not case["refit"]:
            kw = dict(bag_generator=gen, n_bins=case["nb"], bin_strategy=case["strat"], regression_estimator=tpl)
            quant = REGy(**kw) if probs else REGX(**kw)
        else:
            quant.bag_generator = gen
            tpl = quant.regression_estimator
        del LOG[:]
        off = len(tr)
        if not probs:
            _, fexc = call(quant.fit, tr, y)
        elif case["via"] == "estimator":
            e = Table(labels, probs=np.concatenate([tr] + te))
            e.classes_ = labels
            quant.estimator_train = quant.estimator_test = e
            _, fexc = call(quant.fit, np.arange(len(tr), dtype=float).reshape(-1, 1), y)
        else:
            quant.estimator_train = quant.estimator_test = None
            _, fexc = call(quant.fit, None, y[:len(y) // r], predictions_train=tr)
        nd = (1 if n == 2 else n) if probs else tr.shape[1]
        base = dict(n=n, rows=[v[:nd] for v in fit["rows"]], y=fit["y"], strat=case["strat"], nb=case["nb"], probs=probs, exc=fexc, bags=[], cuts=[], lessons=[])
        if not fexc:
            base["bags"] = (np.asarray(gen.indexes_).T.astype(int) + 1).tolist()
            base["cuts"] = [c[1:-1] for c in M(np.asarray(quant.bincuts_, dtype=float))]
            base["lessons"] = [dict(X=M(l[2]), Y=V(l[3])) for l in LOG if l[0] == "fit"]
        if case["script"]:
            evs.append(dict(base, ev="fit", new=True, template=not hasattr(tpl, "X_"), classes=quant.classes_ is not None and list(quant.classes_) == list(labels)))
        for i, t in enumerate(te):
            k0 = len(LOG)
            if fexc:
                out, exc = None, fexc
            elif not probs:
                out, exc = call(quant.predict, t)
            elif case["via"] == "estimator":
                out, exc = call(quant.predict, np.arange(off, off + len(t), dtype=float).reshape(-1, 1))
            else:
                out, exc = call(quant.predict, None, predictions_test=t)
            off += len(t)
            asks = [[] for _ in base["lessons"]]
            raw = [[] for _ in base["lessons"]]
            for l in LOG[k0:]:
                if l[0] == "ask" and l[1] < len(asks):
                    asks[l[1]] += M(l[2])
                    raw[l[1]].append(R(l[3]))
            ev = dict(base, ev="predict" if case["script"] else "default", new=True, trows=[v[:nd] for v in fit["tests"][i]], out=V(out) if not exc else [], exc=exc)
            if case["script"]:
                if not fexc and any(len(v) != 1 for v in raw):
                    ev["asks"], ev["raw"] = asks, []
                else:
                    ev["asks"], ev["raw"] = asks, [v[0] for v in raw]
            else:
                for k in ("rows", "y", "bags", "cuts", "lessons", "trows"):
                    del ev[k]
            evs.append(ev)
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = []
    for n, nc, cuts, vals, sizes, nb, take in ((3, 2, "C3", "V3", "{1, 2, 3}", 2, 250), (3, 3, "C2", "V2", "{2, 4}", 1, 120)):
        beh = chk.mc("MCRegression", dict(N=str(n), NCl=str(nc), Cuts="<- " + cuts, Vals="<- " + vals, Sizes=sizes, NBags=str(nb), Depth="1"),
                     ["Distributions", "SameBagSameRow", "Export"], emit=True)
        beh.sort(key=str)
        take = chk.n(take, take * 8)
        if len(beh) > take:
            beh = [beh[i] for i in sorted(rng.choice(len(beh), take, replace=False))]
        for i, b in enumerate(beh):
            kind = ["REGX", "REGy"][i % 2]
            mk = lambda v: [str(v), str(1 - F(v))] + ["0"] * (nc - 2) if kind == "REGy" else [str(v)]
            h = b[0]
            rows = [mk(v) for v in h["x"]]
            cases.append(dict(kind=kind, names=LABELS[i % len(LABELS)], nb=[3, 2, 4][i % 3], strat=["equal_width", "equal_count", "normal"][i // 2 % 3], via=["given", "estimator"][i // 4 % 2],
                              script=[0.25, 0.75, -0.5, 1.5, 0.0][:1 + i % 5], refit=False,
                              fits=[dict(n=nc, rows=rows, y=h["y"], bags=h["bags"], tests=[[rows[k - 1] for k in t] for t in h["tests"]])], gen=None))
    for i in range(chk.n(320, 3000)):
        kind = ["REGX", "REGy"][i % 2]
        fits = []
        refit = i % 4 == 3
        strat = ["equal_width", "equal_count", "normal", "binormal"][rng.randint(4)]
        for _ in range(1 + refit):
            n = 2 if strat == "binormal" else int(rng.randint(2, 5))
            y = np.repeat(np.arange(1, n + 1), rng.choice([1, 2, 3, 6] if i % 50 not in (6, 7) else [20, 40], n))
            y = [int(v) for v in rng.permutation(y)]
            d = int(rng.randint(1, 4))
            r = 1
            if kind == "REGX":
                new = lambda c: [str(Fraction(int(v), 8)) for v in rng.randint(-10, 11, d) + 3 * c]
                rows = [new(c) for c in y]
            else:
                new = lambda c: dyadic_rows(rng, 1, n, 16)[0]
                r = int(rng.choice([1, 1, 2]))
                rows = [new(c) for c in y * r]
            tests = [[new(int(c)) for c in rng.randint(1, n + 1, rng.choice([1, 3, 7]))], [rows[int(j)] for j in rng.permutation(len(rows))]]
            fits.append(dict(n=n, rows=rows, y=y * r, reps=r, tests=tests))
        via = "given" if any(f["reps"] > 1 for f in fits) else ["given", "estimator"][rng.randint(2)]
        g = dict(kind=["prior", "covariate", "both"][rng.randint(3)], n=int(rng.randint(2, 8)), size=[None, 1, 5, 12][rng.randint(4)], seed=int(rng.randint(1000)), method=["Uniform", "Dirichlet"][rng.randint(2)])
        if kind == "REGX" and rng.rand() < .2:
            for f in fits:
                f["bags"] = [[int(v) for v in rng.randint(1, len(f["y"]) + 1, g["size"] or 4)] for _ in range(3)]
        script = [float(v) for v in rng.choice([-0.5, 0, 0.125, 0.25, 0.5, 0.75, 1, 1.5], rng.randint(1, 7))]
        if i % 10 == 9:
            script = [-1.0, 0.0] if i % 20 == 9 else None
            g["n"] = 30
        cases.append(dict(kind=kind, names=LABELS[rng.randint(len(LABELS))], nb=int(rng.choice([2, 3, 5, 8])), strat=strat, via=via, script=script, refit=refit, fits=fits, gen=g))
    chk.validate("TraceRegression", chk.record(run, cases))
    return chk.finish(assumptions=["when every regressor's output clips to zero there is nothing to normalise: any distribution is accepted",
                                   "the library's default regressor (a binomial GLM) is only required to lead to a distribution"])
