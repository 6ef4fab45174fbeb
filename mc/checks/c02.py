"""C02: full enumeration without displacements, superperiodic structures excluded."""
from . import c01

SUPERS = False
BOUNDS = c01.BOUNDS
ASSUMPTIONS = c01.ASSUMPTIONS
cases = c01.cases


def explore(case, st):
    c01.explore(case, st, SUPERS)
