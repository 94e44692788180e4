"""P32: data files, scaling and figures."""
import os, tempfile
import numpy as np
from fractions import Fraction
from core import *
from gen import fl

PALETTE = ["red", "green", "blue", "black", "yellow", "cyan", "magenta", "orange", "purple", "brown", "pink", "gray"]


def axes():
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig = Figure()
    FigureCanvasAgg(fig)
    return fig, fig.add_subplot()


def same_colour(a, b):
    from matplotlib.colors import to_rgba
    return bool(np.allclose(to_rgba(a), to_rgba(b)))


def drawn_lines(ax, palette):
    """lines from bottom to top, each its pieces as fractions of the width of the axes"""
    from matplotlib.collections import LineCollection
    pieces = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            col = c.get_colors()
            pieces += [(s, col[i % len(col)]) for i, s in enumerate(c.get_segments())]
    pieces += [(np.column_stack([l.get_xdata(), l.get_ydata()]), l.get_color()) for l in ax.lines]
    lo, hi = ax.get_xlim()
    out = {}
    for s, col in pieces:
        ix = [i + 1 for i, p in enumerate(palette) if same_colour(p, col)]
        y = float(s[0][1])
        if len(s) != 2 or s[1][1] != y or not min(ax.get_ylim()) <= y <= max(ax.get_ylim()):
            ix = [-1]
        out.setdefault(y, []).append({"from": R((s[0][0] - lo) / (hi - lo)), "to": R((s[-1][0] - lo) / (hi - lo)), "colour": ix[0] if ix else 0})
    return [out[y] for y in sorted(out)]


def run(case):
    evs, ax = [], None
    for e in case["events"]:
        ev = dict(e, new=not evs)
        if e["ev"] == "lines":
            from quantificationlib.plot.qlplot import plot_line_prevalences
            m = fl(e["rows"])
            keep = m.copy()
            fig, ax = axes()
            kw = {}
            if e["order"] != "none" or e["said"]:
                kw["order"] = None if e["order"] == "none" else e["order"]
            palette = None
            if e["colours"]:
                palette = [PALETTE[k] for k in e["colours"]]
                kw["colors"] = list(palette)
            elif e["said"]:
                kw["colors"] = None
            if palette is None:
                import matplotlib.colors as mcolors
                palette = list(mcolors.TABLEAU_COLORS)
            _, exc = call(plot_line_prevalences, ax, m, **kw)
            ev.update(palette=[k + 1 for k in range(len(palette))], lines=[], exc=exc, kept=bool(np.array_equal(keep, m)), rows=M(keep))
            if not exc:
                lines, x = call(drawn_lines, ax, palette)
                ev.update(lines=lines or [], exc=x)
        elif e["ev"] == "boxes":
            from quantificationlib.plot.qlplot import plot_boxes
            m = fl(e["columns"]).T
            keep = m.copy()
            fig, ax = axes()
            kw = {}
            if e["vert"] != "left out":
                kw["vert"] = dict(none=None, true=True, false=False)[e["vert"]]
            if e["labels"]:
                kw["labels"] = list(e["labels"])
            if e["colours"]:
                kw["colors"] = [PALETTE[k - 1] for k in e["colours"]]
            if e["asked"][0]:
                kw["x_title"] = e["asked"][0]
            if e["asked"][1]:
                kw["y_title"] = e["asked"][1]
            _, exc = call(plot_boxes, ax, m, **kw)
            ev.update(marks=[], fills=[], shown=[], titles=[ax.get_xlabel(), ax.get_ylabel()], exc=exc, kept=bool(np.array_equal(keep, m)))
            if not exc:
                v = e["vert"] != "false"
                n = m.shape[1]
                marks = [set() for _ in range(n)]
                fills = [0] * n
                for s, patch in [(np.asarray(l.get_xydata()), None) for l in ax.lines] + [(p.get_path().vertices, p) for p in ax.patches]:
                    if patch is not None:
                        s = s[:-1]               # the vertex that closes the path
                    for x, y in s:
                        at, val = (x, y) if v else (y, x)
                        j = int(round(at))
                        if 1 <= j <= n:
                            marks[j - 1].add(float(val))
                            if patch is not None:
                                ix = [k + 1 for k, c in enumerate(PALETTE) if same_colour(c, patch.get_facecolor())]
                                fills[j - 1] = ix[0] if ix else -1
                        else:
                            marks[0].add(float("nan"))
                ev.update(marks=[[R(t) for t in sorted(s)] for s in marks], fills=fills if e["colours"] else [],
                          shown=[t.get_text() for t in (ax.get_xticklabels() if v else ax.get_yticklabels())] if e["labels"] else [])
        elif e["ev"] == "scale":
            from quantificationlib.data_utils import normalize
            a, b = fl(e["train"]), fl(e["test"])
            ka, kb = a.copy(), b.copy()
            out, exc = call(normalize, a, b)
            ev.update(out=[M(o) for o in out] if not exc else [], exc=exc, kept=bool(np.array_equal(ka, a) and np.array_equal(kb, b)))
        else:
            from quantificationlib.data_utils import load_data
            d = tempfile.mkdtemp(prefix="verif_p32_")
            path = os.path.join(d, "data.csv")
            try:
                with open(path, "w") as f:
                    f.write(e["text"])
                out, exc = call(load_data, path)
            finally:
                os.unlink(path)
                os.rmdir(d)
            ev.update(x=M(out[0]) if not exc else [], y=V(out[1]) if not exc else [], whole=not exc and np.asarray(out[1]).dtype.kind in "iu", exc=exc)
        evs.append(ev)
    return evs


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases, shown = [], []
    for nc, den, k in ((2, 4, 3), (3, 2, 2), (3, chk.n(2, 3), chk.n(2, 3)), (4, 2, 2)):
        c = dict(NC=str(nc), Den=str(den), MaxRows=str(k), Careful="TRUE")
        shown += chk.mc("MCFigures", c, ["Contiguous", "Complete", "Faithful", "Telling", "Export"], emit=True)
    chk.mc("MCFigures", dict(NC="2", Den="2", MaxRows="2", Careful="FALSE"), ["Contiguous"], refuted="Contiguous")
    shown.sort(key=str)
    take = chk.n(500, 5000)
    if len(shown) > take:
        shown = [shown[i] for i in sorted(rng.choice(len(shown), take, replace=False))]

    def colours(n):
        return [int(v) for v in rng.permutation(len(PALETTE))[:n]] if rng.randint(2) else []

    def lines(rows, order):
        return dict(ev="lines", rows=rows, order=order, said=bool(rng.randint(2)), colours=colours(len(rows[0])))
    for i in range(0, len(shown), 2):          # several figures one after the other
        cases.append(dict(events=[lines(b["rows"], b["order"]) for b in shown[i:i + 2]]))

    def dyadic(*size):
        return [[str(Fraction(int(v), 64)) for v in r] for r in rng.randint(-200, 201, size)]
    for i in range(chk.n(400, 4000)):
        evs = []
        for _ in range(1 + i % 3):
            kind = rng.randint(4)
            if kind == 0:
                n, k = int(rng.choice([2, 3, 4, 6, 10] if i % 20 else [12])), int(rng.choice([1, 2, 5, 12, 60]))
                rows = [[str(Fraction(int(v), int(sum(r)))) for v in r] for r in [rng.choice([0, 1, 2, 5, 9], n) + (rng.randint(n) == np.arange(n)) for _ in range(k)]]
                evs.append(lines(rows, ["none", "ascending", "descending"][rng.randint(3)]))
            elif kind == 1:
                n, k = int(rng.choice([1, 2, 3, 5, 8])), int(rng.choice([1, 2, 3, 4, 5, 9, 17, 40]))
                cols = [[str(Fraction(int(v), 64)) for v in (rng.randint(0, 60, k) if rng.randint(2) else np.concatenate([rng.randint(20, 30, k - k // 5), rng.randint(0, 64, k // 5)]))] for _ in range(n)]
                ci = [k + 1 for k in colours(n)]
                evs.append(dict(ev="boxes", columns=cols, vert=["left out", "none", "true", "false"][rng.randint(4)], colours=ci,
                                labels=["system %s" % chr(65 + j) for j in rng.permutation(n)] if rng.randint(2) else [],
                                asked=[["", "errors"][rng.randint(2)], ["", "method"][rng.randint(2)]]))
            elif kind == 2:
                d = int(rng.randint(1, 5))
                tr, te = dyadic(int(rng.choice([1, 2, 5, 30])), d), dyadic(int(rng.choice([1, 2, 7])), d)
                if rng.randint(3) == 0:
                    for r in tr:
                        r[0] = tr[0][0]            # the same everywhere
                evs.append(dict(ev="scale", train=tr, test=te))
            else:
                d, k = int(rng.randint(1, 6)), int(rng.choice([1, 2, 3, 10, 50]))
                rows = [r + [str(c)] for r, c in zip(dyadic(k, d), rng.choice([[0, 1], [1, 2, 3], [-1, 1], [5, 100, 12]][rng.randint(4)], k))]
                form = [lambda q: repr(float(q)), lambda q: "%.10e" % float(q), lambda q: " %s" % float(q)][rng.randint(3)]
                whole = [str, lambda c: "%s.0" % c, lambda c: " %s" % c][rng.randint(3)]
                text = "\n".join(",".join([form(Fraction(q)) for q in r[:-1]] + [whole(r[-1])]) for r in rows) + ["", "\n"][rng.randint(2)]
                evs.append(dict(ev="load", rows=rows, text=text))
        cases.append(dict(events=evs))
    chk.validate("TraceFigures", chk.record(run, cases))
    return chk.finish(assumptions=["prevalences of an experiment are non-negative and sum to one; at least one class and one experiment; at least as many colours as classes",
                                   "a feature that is the same for all training examples is only centred"])
