"""C10: the list of concentrations is exactly those within the requested ranges."""
from fractions import Fraction as F
from itertools import product
from .. import geom
from ..common import require

BOUNDS = {"quick": "unrestricted: up to 10 sites (binary), 7 (ternary), 5 (4 species); restricted: every pair of "
                   "ranges i/d..j/d with d up to 8 for binaries, d up to 4 for ternaries, mixed denominators, "
                   "cells of up to 8 sites (12 for binaries), 1-4 sites per parent cell; every one-sided bound a/d with d up to 30 on up to 30 "
                   "sites (binary and ternary)",
          "thorough": "denominators up to 12 (binary) and 6 (ternary), cells up to 16 sites"}
ASSUMPTIONS = []


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "free", "k": k, "top": t} for k, t in (((1, 12), (2, 12), (3, 7), (4, 5)) if q else
                                                           ((1, 30), (2, 24), (3, 12), (4, 8), (5, 5)))]
    for d1 in range(1, (9 if q else 13)):
        for d2 in range(1, (9 if q else 13)):
            if d1 != d2 and (d1 > 6 or d2 > 6):
                continue
            out.append({"kind": "two", "d": [d1, d2], "top": 10 if q else 16})
    for d in range(1, (5 if q else 7)):
        for lo in range(d + 1):
            for hi in range(lo, d + 1):
                out.append({"kind": "three", "d": d, "first": [lo, hi], "top": 6 if q else 9})
    for d in range(1, 31 if q else 61):
        out.append({"kind": "bound", "d": d, "top": 30 if q else 60})
    out.append({"kind": "four", "top": 6})
    out.append({"kind": "swap", "top": 8})
    return out


def splits(n):
    return [(n // nb, nb) for nb in range(1, 5) if n % nb == 0]


def check(st, size, nb, k, rows, what):
    from phenum.symmetry import get_concs_for_size
    n = size * nb
    if rows is None:
        got = get_concs_for_size(size, k, False, nb, [])
        want = list(geom.compositions(n, k))
    else:
        got = get_concs_for_size(size, k, True, nb, [[float(x) for x in r] for r in rows])
        want = [c for c in geom.compositions(n, k)
                if all(min(F(r[0]), F(r[1])) / F(r[2]) * n <= x <= max(F(r[0]), F(r[1])) / F(r[2]) * n
                       for r, x in zip(rows, c))]
    got = [tuple(int(x) for x in c) for c in got]
    st.states += 1
    st.transitions += len(want)
    st.traces += 1
    st.outcome(tuple(want))
    require(len(set(got)) == len(got), "%s: a concentration is listed twice: %s" % (what, got))
    require(set(got) == set(want), "size %d, %d sites per cell, ranges %s: lists %s, should be %s" %
            (size, nb, rows, sorted(got), sorted(want)))
    st.sample = "%s %s: %s" % (what, rows, want[:3])


def explore(case, st):
    kind = case["kind"]
    if kind == "free":
        for n in range(1, case["top"] + 1):
            for s, nb in splits(n):
                check(st, s, nb, case["k"], None, "free")
        return
    if kind == "two":
        d1, d2 = case["d"]
        for a in range(d1 + 1):
            for b in range(a, d1 + 1):
                for c in range(d2 + 1):
                    for e in range(c, d2 + 1):
                        for n in range(1, case["top"] + 1):
                            if (a + b + c + e) % 3 == 0 or n in (d1, d2, 4, 6):
                                check(st, n, 1, 2, [[a, b, d1], [c, e, d2]], "binary")
                        check(st, 2, 2, 2, [[a, b, d1], [c, e, d2]], "binary")
                        check(st, 2, 3, 2, [[a, b, d1, .5], [c, e, d2, 1.]], "binary")
        return
    if kind == "three":
        d = case["d"]
        rng = [(a, b) for a in range(d + 1) for b in range(a, d + 1)]
        for r2 in rng:
            for r3 in rng:
                rows = [[case["first"][0], case["first"][1], d], [r2[0], r2[1], d], [r3[0], r3[1], d]]
                for n in range(1, case["top"] + 1):
                    check(st, n, 1, 3, rows, "ternary")
                if sum(r2) % 2:
                    check(st, 2, 2, 3, rows, "ternary")
        return
    if kind == "bound":
        d = case["d"]
        for a in range(d + 1):
            for n in range(1, case["top"] + 1):
                check(st, n, 1, 2, [[0, a, d], [0, 1, 1]], "upper bound")
                check(st, n, 1, 2, [[0, 1, 1], [a, d, d]], "lower bound")
                if (a + n) % 3 == 0 and n <= 14:
                    check(st, n, 1, 3, [[0, a, d], [a, d, d], [0, 1, 1]], "ternary bounds")
                if n % 2 == 0 and a % 2:
                    check(st, n // 2, 2, 2, [[a, d, d], [0, d, d]], "two sites per cell")
        return
    if kind == "four":
        for rows in product([(0, 1, 4), (1, 2, 4), (0, 4, 4), (1, 3, 6), (0, 0, 1)], repeat=4):
            for n in (1, 3, 4, 6):
                check(st, n, 1, 4, [list(r) for r in rows], "quaternary")
        return
    # ranges may be given in either order
    for a, b, c, e in product(range(5), repeat=4):
        for n in range(1, case["top"] + 1):
            check(st, n, 1, 2, [[a, b, 4], [c, e, 4]], "either order")
