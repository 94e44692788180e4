"""P19: the ordinal decomposition yields the differences of repaired cumulative prevalences."""
from core import *
import decomp
from p18 import cases_of


def main(chk):
    chk.validate("TraceDecomposition", chk.record(decomp.compose, cases_of(chk, "fh", None)))
    return chk.finish(assumptions=["the wrapped quantifiers are scripted: what they answer is covered by their own properties"])
