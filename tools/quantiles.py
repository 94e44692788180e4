"""writes spec/NormalQuantiles.tla (run with python3-vt): the quantiles i/n used by the supported numbers of bins"""
from fractions import Fraction
from statistics import NormalDist
from scipy.stats import norm
import os
Q = sorted({Fraction(i, n) for n in [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 32, 50] for i in range(1, n)})
f = lambda q: str(Fraction(float(norm.ppf(float(q)))).limit_denominator(10 ** 15)) if q != Fraction(1, 2) else "0"
s = "--------------------------- MODULE NormalQuantiles ---------------------------\n(* Quantiles of the standard normal distribution, to 15 digits. *)\nEXTENDS Rat\n"
s += "Phi == [q \\in {" + ", ".join('"%s"' % q for q in Q) + "} |->\n  CASE " + "\n    [] ".join('q = "%s" -> "%s"' % (q, f(q)) for q in Q) + "]\n"
old = open(os.path.join(os.path.dirname(__file__), "../spec/NormalQuantiles.tla")).read()
s += old[old.index("PhiInv("):] if "PhiInv(" in old else ""
open(os.path.join(os.path.dirname(__file__), "../spec/NormalQuantiles.tla"), "w").write(s)
