"""P21: the ordinal quantification tree always splits at the best binary quantifier."""
import numpy as np
from core import *
import decomp
from p20 import cases_of


def main(chk):
    rng = np.random.RandomState(chk.seed)
    cases = cases_of(chk, ["tree"], decomp.vectors(chk), rng)
    chk.validate("TraceDecomposition", chk.record(decomp.rows, cases))
    return chk.finish(assumptions=["splits whose scores differ by less than 1e-8 are considered tied"])
