"""C22: results do not depend on what was computed before; arguments are left as they were."""
import copy
import os
import pickle
import shutil
import signal
import sys
from itertools import product
from .. import api, files, geom
from ..common import require, Violation

BOUNDS = {"quick": "every sequence of 1 and 2 calls (a costly second call after 13 first calls), every a-a, over an alphabet of 86 calls (built to coincide in part of their "
                   "arguments), each from a fresh process state; long chains along a sequence containing every ordered pair (de Bruijn); every sequence of 3 over 13 of "
                   "them; the arguments of every call compared before and after; per function (19 of them) a grid of argument values, every ordered pair of grid points in one "
                   "process, every call repeated after its result was changed by the caller and after its argument lists were overwritten in place",
          "thorough": "every sequence of 3 calls over the whole alphabet"}
ASSUMPTIONS = ["calls of one process are not concurrent"]
TIMEOUT = 800
Z = geom.ZOO


# ------------------------------------------------------------------ the alphabet
def tup(x):
    """results as plain nested tuples"""
    if isinstance(x, dict):
        return tuple(sorted((str(k), tup(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(tup(v) for v in x)
    if isinstance(x, (range, set, frozenset)):
        return tuple(tup(v) for v in (sorted(x) if not isinstance(x, range) else x))
    if hasattr(x, "tolist"):
        return tup(x.tolist())
    if isinstance(x, bool) or x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, float):
        return round(x, 9) + 0.0
    if hasattr(x, "perm"):
        return (tup(x.perm.site_perm), tup(x.perm.arrow_perm))
    raise TypeError(type(x))


def H(*h):
    return [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]


def vb(name):
    lat = Z[name]
    return [list(map(float, v)) for v in lat.vecs], [list(map(float, v)) for v in lat.cart_basis]


def f_group(name, h, arrows):
    from phenum.grouptheory import get_sym_group
    v, b = vb(name)
    return (lambda v, b, h: get_sym_group(v, b, h, 3, arrows=arrows)), (v, b, h)


def f_hnfs(name, n):
    from phenum.HNFs import get_HNFs
    v, b = vb(name)
    return (lambda v, b: get_HNFs(n, v, b, 3)), (v, b)


def f_space(name, types=None, eps=None):
    from phenum.symmetry import get_spaceGroup
    v, b = vb(name)
    t = types or [1] * len(b)
    if eps:
        return (lambda v, t, b: canon_ops(get_spaceGroup(v, t, b, eps))), (v, t, b)
    return (lambda v, t, b: canon_ops(get_spaceGroup(v, t, b))), (v, t, b)


def canon_ops(rs):
    return rs[0], rs[1]


def f_point(name):
    from phenum.symmetry import get_lattice_pointGroup
    v, b = vb(name)
    return (lambda v: get_lattice_pointGroup(v)), (v,)


def f_snf(h):
    from phenum.grouptheory import SmithNormalForm
    return (lambda h: SmithNormalForm(h)), (h,)


def f_polya(name, h, concs, arrows, arrowings=None, shift=False):
    from phenum.polyaburnside import polya
    g = [[[x + shift for x in s], list(a) if a else list(range(6))] for s, a in geom_group(name, h, arrows)]
    if arrowings is None:
        return (lambda c, g: polya(c, g)), (list(concs), g)
    return (lambda c, g: polya(c, g, arrowings=arrowings)), (list(concs), g)


def geom_group(name, h, arrows):
    hh = tuple(tuple(r) for r in h)
    d, L = plain_snf(hh)
    return sorted(geom.Cell(Z[name], hh, L, d).group(arrows=arrows), key=repr)


SNF = {}


def plain_snf(hh):
    """Smith forms of the alphabet's supercells, found by search (diagonal, left transform)"""
    if hh not in SNF:
        n = hh[0][0] * hh[1][1] * hh[2][2]
        if all(hh[i][j] == 0 for i in range(3) for j in range(i)):
            SNF[hh] = ([hh[i][i] for i in range(3)], [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
            if hh[1][1] % hh[0][0] == 0 and hh[2][2] % hh[1][1] == 0:
                return SNF[hh]
        for rows in product(product((0, 1, -1, 2), repeat=3), repeat=3):
            if abs(geom.det3(rows)) != 1:
                continue
            LH = geom.matmul(rows, hh)
            # L H R = D: D = diag(1,1,n) when the first two rows of L H can be cleared: rows of H^-1 scaled
            q = [[sum(rows[i][k] * hh[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
            for d in ([1, 1, n], [1, 2, n // 2] if n % 4 == 0 else [1, 1, n]):
                from fractions import Fraction as F
                R = [[F(0)] * 3 for _ in range(3)]
                inv = geom.inv3(q)
                R = [[inv[i][j] * d[j] for j in range(3)] for i in range(3)]
                if all(F(x).denominator == 1 for r in R for x in r):
                    SNF[hh] = (d, [list(r) for r in rows])
                    return SNF[hh]
        raise AssertionError("no small transform for %s" % (hh,))
    return SNF[hh]


def f_enum(name, h, concs, aconcs, wanted, supers, accept=None):
    from phenum.phonons import enum_sys
    import random
    v, b = vb(name)
    p = {"lat_vecs": v, "basis_vecs": b}

    def call(c, a, h, p):
        random.seed(11)
        return [api.word(x) for x in enum_sys(None, c, a, wanted, h, p, supers, accept)]
    return call, (list(concs), list(aconcs), api.six(h), p)


def f_concs(size, k, res, nb, concs):
    from phenum.symmetry import get_concs_for_size
    return (lambda c: get_concs_for_size(size, k, res, nb, c)), (copy.deepcopy(concs),)


def f_aconc(c, a):
    from phenum.phonons import arrow_concs, how_many_arrows

    def call(c, a):
        d = arrow_concs(c, a)
        return d, how_many_arrows(d)
    return call, (list(c), list(a))


def f_vegard(el, c, name, rz=False):
    from phenum.element_data import get_lattice_parameter
    v, b = vb(name)
    return (lambda e, c, v: get_lattice_parameter(e, c, v, len(b), " default title\n", remove_zeros=rz)), (list(el), list(c), v)


def f_agroup(t, r):
    from phenum.grouptheory import a_group
    return (lambda t, r: a_group(t, r)), (copy.deepcopy(t), copy.deepcopy(r))


def f_multi(c):
    from phenum.numerics import multinomial
    return (lambda c: multinomial(c)), (list(c),)


def f_mink(B):
    from phenum.vector_utils import _minkowski_reduce_basis
    return (lambda B: _minkowski_reduce_basis(B, 1e-7)), (copy.deepcopy(B),)


def f_map(name, h, lab, dirs, mink):
    """one structure to real space"""
    from phenum.vector_utils import map_enumStr_to_real_space, cartesian2direct
    lat = Z[name]
    hh = tuple(tuple(r) for r in h)
    d, L = plain_snf(hh)
    v, b = vb(name)
    system = {"plattice": v, "dvecs": b, "nD": len(b), "bulksurf": "bulk", "k": 3, "eps": 1e-7, "title": "t", "nspecies": 3}
    structure = {"HNF": [list(r) for r in h], "diag": list(d), "L": [list(r) for r in L], "labeling": lab, "directions": dirs,
                 "strN": 1, "hnfN": 1, "sizeN": 1, "n": d[0] * d[1] * d[2], "pgOps": 1, "hnf_degen": 1, "lab_degen": 1, "tot_degen": 1}

    def call(s, t):
        sp = map_enumStr_to_real_space(s, t, mink)
        cols = [list(map(float, r)) for r in sp["sLV"]]
        return cols, cartesian2direct(sp["sLV"], copy.deepcopy(sp["aBas"]), 1e-7), sp["spin"], sp["gIndx"]
    return call, (system, structure)


def f_distribute(rows, what, n, sizes, seed=3, **kw):
    """distribute over count tables written for it"""
    def call():
        from phenum.structures import make_enum_in
        for s, table in rows.items():
            with open("polya.out.%d" % s, "w") as f:
                f.write("# HNF                       " + " ".join(":".join(map(str, c)) for c in table["c"]) + " Total\n")
                for hnf, cnt in table["r"]:
                    f.write("  " + " ".join(map(str, hnf)) + "   " + " ".join(map(str, cnt)) + " %d\n" % sum(cnt))
                f.write("# ---\n  0 0 0 0 0 0  " + " ".join(str(sum(x)) for x in zip(*[c for _, c in table["r"]])) + " %d\n" % sum(sum(c) for _, c in table["r"]))
        make_enum_in("polya.out", what, outfile="enum.in", number=n, sizes=sizes, seed=seed, **kw)
        return sorted((f, dateless(f)) for f in os.listdir("."))
    return call, ()


def dateless(f):
    return "".join(l for l in open(f).read().splitlines(True) if "enumeration:" not in l and "Random structure" not in l)


def f_cli(name, sizes, k, argvs, concs=None, arrows=None):
    def call():
        files.write_lattice_in("lattice.in", Z[name], sizes, k, concs, arrows)
        for a in argvs:
            files.cli_enum(a)
        return sorted((f, dateless(f)) for f in os.listdir("."))
    return call, ()


def f_str(name, h, labs, argv):
    def call():
        hh = tuple(tuple(r) for r in h)
        d, L = plain_snf(hh)
        files.write_enum_out("struct_enum.out", Z[name], 2, [(hh, d, L, l, "0" * len(l)) for l in labs])
        files.cli_structures(argv)
        return sorted((f, dateless(f)) for f in os.listdir("."))
    return call, ()


def f_read(name, sizes, k, concs=None, arrows=None):
    from phenum.io_utils import read_lattice

    def call():
        files.write_lattice_in("lattice.in", Z[name], sizes, k, concs, arrows)
        return read_lattice("lattice.in")
    return call, ()


def f_readgroup(text):
    from phenum.io_utils import read_group

    def call():
        with open("group.out", "w") as f:
            f.write(text)
        return read_group("group.out")
    return call, ()


def f_readenum(rows):
    from phenum.io_utils import read_enum

    def call():
        with open("enum.in", "w") as f:
            f.write("# HNF   concs  number\n")
            for h, c, n in rows:
                f.write(" ".join(map(str, h)) + "   " + " ".join(map(str, c)) + "    %d\n" % n)
        return read_enum("enum.in")
    return call, ()


T1 = {2: {"c": [(0, 2), (1, 1), (2, 0)], "r": [((1, 0, 1, 0, 0, 2), (1, 1, 1)), ((1, 0, 1, 0, 1, 2), (1, 1, 1))]},
      3: {"c": [(0, 3), (1, 2), (2, 1), (3, 0)], "r": [((1, 0, 1, 0, 0, 3), (1, 1, 1, 1)), ((1, 0, 1, 0, 1, 3), (1, 2, 3, 1))]}}
T2 = {2: {"c": [(0, 2), (1, 1), (2, 0)], "r": [((1, 0, 1, 0, 0, 2), (1, 4, 1)), ((1, 0, 1, 1, 0, 2), (1, 1, 5))]},
      3: {"c": [(1, 2), (2, 1)], "r": [((1, 0, 1, 0, 0, 3), (7, 1)), ((1, 0, 1, 0, 2, 3), (1, 2))]}}


def alphabet():
    """name -> thunk giving (function, arguments)"""
    A = {}

    def add(fn, *a, **kw):
        name = "%d %s%s" % (len(A), fn.__name__[2:], (repr(a) + repr(sorted(kw.items())))[:150])
        assert name not in A, name
        A[name] = lambda: fn(*a, **kw)
    h2, h2b, h4, h4b = H(1, 0, 1, 0, 0, 2), H(1, 0, 1, 1, 1, 2), H(1, 0, 2, 0, 0, 2), H(1, 0, 1, 0, 2, 4)
    # groups: same supercell, different parents / bases / directions wanted
    for nm in ("sc", "tet", "fcc", "sc_off", "hcp", "sc_h2"):
        add(f_group, nm, h2, False)
    add(f_group, "sc", h2, True)
    add(f_group, "sc", h4, False)
    add(f_group, "sc_h2", h4b, True)
    add(f_group, "mono2_out", h2, False)
    add(f_space, "hcp")
    add(f_space, "hcp", [1, 2])
    add(f_space, "sc_h2")
    add(f_space, "perov3")
    add(f_space, "perov3", [1, 2, 1])
    add(f_space, "fcc_near")
    add(f_space, "fcc_near", None, 0.1)
    add(f_point, "fcc")
    add(f_point, "fcc_near")
    add(f_point, "dia_si")
    add(f_hnfs, "sc", 2)
    add(f_hnfs, "sc", 3)
    add(f_hnfs, "sc_h2", 2)
    add(f_hnfs, "tet", 2)
    add(f_hnfs, "mono2_out", 2)
    add(f_snf, h4b)
    add(f_snf, H(2, 1, 2, 0, 0, 2))
    # counts: same compositions with different groups, arrows, 1-based permutations
    add(f_polya, "sc", h4, (2, 2), False)
    add(f_polya, "sc", h4b, (2, 2), False)
    add(f_polya, "sc", h4, (2, 2), True, 1)
    add(f_polya, "sc", h4, (2, 2), True, 2)
    add(f_polya, "sc", h4, (1, 3), True, 1)
    add(f_polya, "tri", h4, (2, 1, 1), False)
    add(f_polya, "tri", h4, (2, 2), False, None, 1)
    # enumerations: same composition, supercell, parent with one of them changed
    base = ("sc", h4, (2, 2), (0, 0), 99, False)
    add(f_enum, *base)
    add(f_enum, *(base[:5] + (True,)))
    add(f_enum, *(base[:4] + (1, True)))
    add(f_enum, "sc", h4b, (2, 2), (0, 0), 99, True)
    add(f_enum, "sc", h4, (2, 2), (0.5, 0), 99, True)
    add(f_enum, "sc", h4, (2, 2), (0.5, 0), 99, False)
    add(f_enum, "sc", h4, (2, 2), (0, 0.5), 99, True)
    add(f_enum, "sc", h4, (2, 2), (1.0, 0.5), 40, True)
    add(f_enum, "sc", h4, (2, 1, 1), (0, 0, 0), 99, False)
    add(f_enum, "sc", h4, (1, 2, 1), (0, 0, 0), 99, False)
    add(f_enum, "fcc", h4, (2, 2), (0, 0), 99, False)
    add(f_enum, "tri", h4, (2, 2), (0, 0), 99, True)
    add(f_enum, "sc_h2", h2, (2, 2), (0, 0), 99, True)
    add(f_enum, "hcp", h2, (2, 2), (0, 0), 99, True)
    add(f_enum, "sc", h4, (4,), (0.5,), 99, True)
    add(f_enum, "tri", H(1, 0, 1, 0, 0, 20), (10, 10), (0, 0), 3, True)
    add(f_concs, 4, 2, True, 1, [[1, 2, 4], [2, 3, 4]])
    add(f_concs, 4, 2, False, 1, [[1, 2, 4], [2, 3, 4]])
    add(f_concs, 4, 2, True, 2, [[1, 2, 4], [2, 3, 4]])
    add(f_concs, 4, 2, True, 1, [[0, 2, 4], [2, 4, 4]])
    add(f_aconc, (2, 2), (0.5, 0))
    add(f_aconc, (2, 2), (0, 0.5))
    add(f_vegard, ("Al", "Ni"), (1, 1), "sc")
    add(f_vegard, ("Al", "Ni"), (3, 1), "sc")
    add(f_vegard, ("Al", "Ni"), (2, 0), "sc")
    add(f_vegard, ("Ni", "Al"), (3, 1), "fcc")
    add(f_vegard, ("Al", "Ni"), (0, 2), "sc", True)
    add(f_agroup, [[0, 1, 2], [1, 2, 0]], [[[0, 1, 2], [0, 1]], [[1, 0, 2], [1, 0]]])
    add(f_agroup, [[0, 1, 2], [1, 2, 0]], [[[0, 1, 2], [0, 1]], [[1, 0, 2], [0, 1]]])
    add(f_multi, (3, 2, 1))
    add(f_multi, (3, 1, 2, 1))
    add(f_mink, [[1., 0, 0], [4, 1, 0], [0, 3, 1]])
    add(f_mink, [[1., 0, 0], [-4, 2, 0], [0, 3, 1]])
    add(f_map, "sc", h4, "0112", "0000", True)
    add(f_map, "sc", h4, "0110", "0200", False)
    add(f_map, "hcp", h2, "0101", "0000", True)
    add(f_distribute, T1, "all", 4, None)
    add(f_distribute, T2, "all", 4, None)
    add(f_distribute, T2, "all", 4, [3])
    add(f_distribute, T2, "shape", 4, None)
    add(f_distribute, T2, "all", 4, None, seed=8)
    add(f_cli, "tri", (1, 2), 2, [["-polya"]])
    add(f_cli, "fcc", (2, 2), 2, [["-polya"], ["-enum", "-super"]])
    add(f_cli, "ortho", (2, 2), 2, [["-enum", "-super"]], [[0, 1, 1], [0, 1, 1]], (0.5, 0))
    add(f_cli, "sc", (2, 2), 2, [["-enum"]], [[1, 1, 2], [1, 1, 2]])
    add(f_str, "sc", h2, ["01", "00"], ["1", "2"])
    add(f_str, "sc", h2, ["01", "00"], ["1", "2", "-species", "Al", "Ni"])
    add(f_str, "fcc", h2, ["01", "11"], ["all", "-species", "Ni", "Al", "-mink", "f"])
    add(f_read, "sc", (1, 3), 2)
    add(f_read, "hcp", (2, 3), 2, [[0, 1, 2], [1, 2, 2]], (0, 1.0))
    add(f_readgroup, "2\n0 1\n1 0\n")
    add(f_readenum, [((1, 0, 1, 0, 0, 2), (1, 1), 2), ((1, 0, 1, 0, 0, 3), (1, 2), 1)])
    return A


# ------------------------------------------------------------------ grids: one function, every combination of argument values
def subgroups4():
    """the subgroups of S4, each as a list of (permutation, direction permutation), identity first"""
    from itertools import permutations
    S = sorted(permutations(range(4)))
    out = set()
    for a, b in product(S, repeat=2):
        g = {tuple(range(4))}
        while True:
            n = g | {tuple(x[k] for k in y) for x in g | {a, b} for y in g | {a, b}}
            if n == g:
                break
            g = n
        out.add(tuple(sorted(g)))
    return sorted(out, key=lambda g: (len(g), g))


def near(name, d):
    v, b = vb(name)
    v = [[x * (1 + d if i == 2 else 1) for x in r] for i, r in enumerate(v)]
    return v, b


def g_polya():
    from phenum.polyaburnside import polya
    gs = subgroups4()
    return (lambda c, g: polya(c, g)), [((list(c), [[list(p), [0, 1, 2, 3, 4, 5]] for p in g])) for c in ((2, 2), (1, 3), (2, 1, 1)) for g in gs]


def g_polya_arrows():
    from phenum.polyaburnside import polya
    turn = ([0, 1, 2, 3, 4, 5], [1, 0, 2, 3, 4, 5], [1, 2, 0, 4, 5, 3], [5, 4, 3, 2, 1, 0])
    out = []
    for g in subgroups4():
        if len(g) != 2:
            continue
        for a in turn:
            if a == turn[2]:
                continue
            for c, w in (((2, 2), 1), ((1, 3), 1), ((1, 1, 2), 2), ((1, 1, 2), 1)):
                out.append((list(c), [[list(g[0]), turn[0]], [list(g[1]), list(a)]], w))
    return (lambda c, g, w: polya(c, g, arrowings=w)), out


def g_group():
    from phenum.grouptheory import get_sym_group
    out = []
    for nm in ("sc", "tet", "sc_h2", "fcc", "fcc_near", "sc_off"):
        v, b = vb(nm)
        for h in (H(1, 0, 1, 0, 0, 2), H(1, 0, 1, 1, 1, 2), H(1, 0, 2, 0, 0, 1)):
            out.append((v, b, h, False))
    v, b = vb("sc")
    out += [(v, b, h, True) for h in (H(1, 0, 1, 0, 0, 2), H(1, 0, 1, 1, 1, 2))]
    out += [near("sc", d) + (H(1, 0, 1, 0, 0, 2), False) for d in (1e-2, 1e-3, 1e-4)]
    return (lambda v, b, h, w: get_sym_group(v, b, h, 3, arrows=w)), out


def g_space():
    from phenum.symmetry import get_spaceGroup
    out = []
    for nm in ("sc_h2", "hcp", "perov3", "sc", "tet", "fcc", "fcc_near"):
        v, b = vb(nm)
        for t in ([1] * len(b), list(range(1, len(b) + 1)), [1] * (len(b) - 1) + [2])[:1 if len(b) == 1 else 3 if len(b) > 2 else 2]:
            out.append((v, t, b, 1e-10))
    v, b = vb("fcc_near")
    out += [(v, [1], b, 0.1)] + [near("sc", d)[:1] + ([1], [[0., 0., 0.]], 1e-10) for d in (1e-2, 1e-3, 1e-4)]
    return (lambda v, t, b, e: canon_ops(get_spaceGroup(v, t, b, e))), out


def g_point():
    from phenum.symmetry import get_lattice_pointGroup
    out = [(vb(n)[0],) for n in ("sc", "tet", "fcc", "fcc_near", "hcp", "ortho", "tri", "dia_si")]
    return (lambda v: get_lattice_pointGroup(v)), out + [(near("sc", d)[0],) for d in (1e-2, 1e-3, 1e-4)]


def g_hnfs():
    from phenum.HNFs import get_HNFs
    out = [vb(nm) + (n,) for nm in ("sc", "tet", "sc_h2", "fcc_near") for n in (2, 3)]
    return (lambda v, b, n: get_HNFs(n, v, b, 3)), out


def g_snf():
    from phenum.grouptheory import SmithNormalForm
    return (lambda h: SmithNormalForm(h)), [(H(*x),) for x in ((1, 0, 1, 0, 0, 4), (1, 0, 1, 0, 2, 4), (1, 0, 2, 0, 0, 2), (1, 0, 2, 1, 0, 2), (1, 0, 2, 1, 1, 2),
                                                               (2, 0, 2, 0, 0, 1), (4, 0, 1, 0, 0, 1), (2, 1, 2, 0, 0, 2), (2, 0, 2, 1, 1, 2))]


def g_concs():
    from phenum.symmetry import get_concs_for_size
    out = []
    for s, n in product((2, 3, 4), (1, 2)):
        out += [(s, 2, False, n, []), (s, 3, False, n, [])]
        out += [(s, 2, True, n, r) for r in ([[0, 1, 2], [1, 2, 2]], [[0, 2, 4], [2, 4, 4]], [[1, 1, 2], [1, 1, 2]])]
        out += [(s, 3, True, n, r) for r in ([[0, 1, 2], [1, 2, 2], [0, 1, 2]], [[0, 2, 4], [0, 4, 4], [0, 0, 4]])]
    return (lambda s, k, r, n, c: get_concs_for_size(s, k, r, n, c)), out


def g_arrow():
    from phenum.phonons import arrow_concs, how_many_arrows

    def call(c, a):
        d = arrow_concs(c, a)
        return d, how_many_arrows(d)
    out = [([2, 2], a) for a in ([0, 0], [.5, 0], [0, .5], [1., 0], [.5, .5], [1., 1.])]
    out += [([1, 3], a) for a in ([0, 0], [1., 0], [0, .34], [1., .67])] + [([2, 1, 1], a) for a in ([0, 0, 0], [.5, 0, 0], [.5, 1., 0])]
    return call, out


def g_enum():
    from phenum.phonons import enum_sys
    import random

    def call(name, c, a, h, w, s):
        v, b = vb(name)
        random.seed(11)
        return [api.word(x) for x in enum_sys(None, c, a, w, h, {"lat_vecs": v, "basis_vecs": b}, s)]
    out = []
    for nm, h in (("sc", [1, 0, 1, 0, 0, 4]), ("sc", [1, 0, 2, 0, 0, 2]), ("tri", [1, 0, 1, 0, 0, 4])):
        for c in ([2, 2], [1, 3], [2, 1, 1]):
            for w, s in ((99, True), (99, False), (1, True)):
                out.append((nm, c, [0] * len(c), h, w, s))
        if nm == "sc":
            out += [(nm, [2, 2], a, h, 999, s) for a in ([.5, 0], [0, .5]) for s in (True, False)]
    return call, out


def g_mink():
    from phenum.vector_utils import _minkowski_reduce_basis
    return (lambda B: _minkowski_reduce_basis(B, 1e-7)), [([[1., 0, 0], [a, 1., 0], [b, c, 1.]],) for a, b, c in product((0., 3., -4.), (0., 2.), (0., -3.))]


def g_vegard():
    from phenum.element_data import get_lattice_parameter
    out = []
    for e, c in product((["Al", "Ni"], ["Ni", "Al"], ["Al", "Cu"]), ([1, 1], [3, 1], [1, 3], [2, 0], [0, 2])):
        for nm in ("sc", "fcc", "hcp"):
            v, b = vb(nm)
            for z in (False, True):
                out.append((e, c, v, len(b), z))
    return (lambda e, c, v, n, z: get_lattice_parameter(e, c, v, n, " default title\n", remove_zeros=z)), out


def g_numerics():
    from phenum.numerics import multinomial, binomial_coefficient, factorial

    def call(c):
        return multinomial(c), binomial_coefficient(sum(c), c[0]), factorial(sum(c))
    return call, [(list(c),) for c in product(range(1, 4), repeat=2)] + [(list(c),) for c in product(range(1, 4), repeat=3)]


def g_agroup():
    from phenum.grouptheory import a_group
    out = []
    T = [[0, 1, 2], [1, 2, 0], [2, 0, 1]]
    for t in (T, T[:1]):
        for p, q in product(([1, 0, 2], [0, 2, 1]), ([0, 1], [1, 0])):
            out.append((t, [[[0, 1, 2], [0, 1]], [p, q]]))
    return (lambda t, r: a_group(t, r)), out


def g_map():
    from phenum.vector_utils import map_enumStr_to_real_space, cartesian2direct
    out = []
    for nm, h in (("sc", H(1, 0, 2, 0, 0, 2)), ("sc", H(1, 0, 1, 0, 2, 4)), ("tri", H(1, 0, 2, 0, 0, 2)), ("hcp", H(1, 0, 1, 0, 0, 2))):
        for lab, dirs, m in (("0112", "0000", True), ("0101", "0000", True), ("0112", "0310", True), ("0112", "0310", False)):
            out.append((nm, h, lab, dirs, m))

    def call(nm, h, lab, dirs, m):
        f, a = f_map(nm, h, lab, dirs, m)
        return f(*a)
    return call, out


def g_file(kind):
    def call(text):
        from phenum import io_utils
        with open("the.file", "w") as f:
            f.write(text)
        return {"group": io_utils.read_group, "enum": io_utils.read_enum, "lattice": io_utils.read_lattice,
                "out": lambda p: io_utils.read_enum_out({"structures": None, "input": p})}[kind]("the.file")
    texts = []
    if kind == "group":
        texts = ["2\n0 1\n1 0\n", "2\n0 1\n0 1\n", "2\n1 0\n0 1\n", "1\n0 1\n", "2\n0 1 2\n1 0 2\n"]
    elif kind == "enum":
        for r in ((1, 0, 1, 0, 0, 2), (1, 0, 1, 0, 1, 2)):
            for c, n in (((1, 1), 2), ((0, 2), 1), ((1, 1), 7)):
                texts.append("# h\n%s  %s  %d\n" % (" ".join(map(str, r)), " ".join(map(str, c)), n))
        texts.append(texts[0] + texts[1].split("\n")[1] + "\n")
    else:
        for nm, kk in product(("sc", "fcc", "hcp"), (2, 3)):
            if kind == "lattice":
                files.write_lattice_in("x", Z[nm], (1, kk), kk, None, None)
            else:
                hh = ((1, 0, 0), (0, 1, 0), (0, 0, 2))
                lab = "01" * len(Z[nm].cart_basis)
                files.write_enum_out("x", Z[nm], kk, [(hh, [1, 1, 2], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], l, "0" * len(l)) for l in (lab, lab[::-1])[:kk - 1]])
            texts.append(open("x").read())
            os.remove("x")
    return call, [(t,) for t in texts]


GRIDS = {"polya": g_polya, "polya_arrows": g_polya_arrows, "group": g_group, "space": g_space, "point": g_point, "hnfs": g_hnfs, "snf": g_snf,
         "concs": g_concs, "arrow": g_arrow, "enum": g_enum, "mink": g_mink, "vegard": g_vegard, "numerics": g_numerics, "agroup": g_agroup,
         "map": g_map, "read_group": lambda: g_file("group"), "read_enum": lambda: g_file("enum"), "read_lattice": lambda: g_file("lattice"),
         "read_enum_out": lambda: g_file("out")}
PARTS = {"group": 6, "space": 4, "point": 1, "hnfs": 8, "enum": 16, "map": 2, "polya": 3, "polya_arrows": 3, "vegard": 2}


def grid_call(f, a):
    """('ok', result) or the error; a is left to the caller"""
    try:
        return ("ok", f(*a))
    except SystemExit as e:
        return ("exit", str(e.code))
    except Exception as e:
        return ("error", "%s: %s" % (type(e).__name__, e))


def res(r):
    return (r[0], tup(r[1]))


def scramble(x, depth=0):
    """change everything that can be changed in place"""
    if isinstance(x, dict):
        for v in x.values():
            scramble(v, depth + 1)
        x["scrambled"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v, depth + 1)
        x.reverse()
        x.append(99)
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, depth + 1)
    elif hasattr(x, "perm"):
        scramble(x.perm.site_perm)
        scramble(x.perm.arrow_perm)
    elif hasattr(x, "fill"):
        try:
            x.fill(99)
        except ValueError:
            pass


def overwrite(x, y):
    """x becomes y, keeping the identity of every list that can be kept; returns what stands for x"""
    if isinstance(x, list) and isinstance(y, list):
        n = min(len(x), len(y))
        x[:] = [overwrite(x[i], y[i]) for i in range(n)] + [copy.deepcopy(v) for v in y[n:]]
        return x
    return copy.deepcopy(y)


def explore_grid(case, st):
    reference({}, [])
    g = case["grid"]
    f, pts = GRIDS[g]()
    scratch()
    ref = []
    for a in pts:
        ref.append(forked(lambda: res(grid_call(f, copy.deepcopy(a)))))
        require(ref[-1][0] == "ok", "%s%s fails in a fresh process: %s" % (g, short_args(a), ref[-1]), "fresh:" + g)
    n = len(pts)
    seq = debruijn(n)
    k, m = case["part"], case["of"]
    lo, hi = len(seq) * k // m, len(seq) * (k + 1) // m

    def run():
        bad, cnt = [], 0
        last = None
        for x in seq[lo:hi] + seq[hi:hi + 1]:
            a = copy.deepcopy(pts[x])
            r = res(grid_call(f, a))
            cnt += 1
            if r != ref[x]:
                bad.append(("after ... then %s%s" % (g, short_args(pts[last]) if last is not None else "nothing"), x, r))
            if tup_args(a) != tup_args(pts[x]):
                bad.append(("(the arguments were changed to %s)" % short_args(a), x, r))
            if bad:
                break
            last = x
        return bad, cnt

    def alias():
        bad, cnt = [], 0
        for x in range(k, n, m):
            r = grid_call(f, copy.deepcopy(pts[x]))
            scramble(r[1])
            r = res(grid_call(f, copy.deepcopy(pts[x])))
            cnt += 2
            if r != ref[x]:
                bad.append(("after the same call, whose result the caller changed", x, r))
                break
        return bad, cnt

    def inplace():
        bad, cnt = [], 0
        for x in range(k, n, m):
            for y in sorted({(x + 1) % n, (x + 2) % n, (x + n // 2) % n, (x + n - 1) % n}):
                a = copy.deepcopy(pts[x])
                grid_call(f, a)
                a = copy.deepcopy(pts[x]) if tup_args(a) != tup_args(pts[x]) else a
                b = tuple(overwrite(u, v) for u, v in zip(a, pts[y]))
                r = res(grid_call(f, b))
                cnt += 2
                if r != ref[y]:
                    bad.append(("after a call with the same lists holding %s" % short_args(pts[x]), y, r))
                    return bad, cnt
        return bad, cnt
    for fn in (run, alias, inplace):
        out = forked(fn, 500)
        if out[0] == "died":
            raise Violation("the process running the calls of %s died: %s" % (g, out), "died")
        bad, cnt = out
        st.states += cnt
        st.transitions += cnt
        st.traces += cnt
        for why, x, r in bad:
            raise Violation("%s: %s%s gives %s; in a fresh process %s" % (why, g, short_args(pts[x]), short(r, ref[x]), short(ref[x], r)), "history")
    for x in range(n):
        st.outcome((g, ref[x]))
    os.chdir("..")
    st.sample = {"grid": g, "argument combinations": n, "calls": st.states}


def short_args(a):
    return repr(tuple(a))[:200]


CORE = [0, 2, 4, 6, 9, 13, 20, 26, 28, 32, 36, 50, 66]


# ------------------------------------------------------------------ running it
def scratch():
    d = "h"
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chdir(d)


def one(A, name, args_check=True):
    """('ok', result) or ('error', ...); the arguments must be as before"""
    scratch()
    try:
        f, a = A[name]()
        before = copy.deepcopy(a)
        try:
            r = ("ok", tup(f(*a)))
        except SystemExit as e:
            r = ("exit", str(e.code))
        except Exception as e:
            r = ("error", "%s: %s" % (type(e).__name__, e))
        if args_check and tup_args(a) != tup_args(before):
            return ("mutated", "the arguments were changed: %s -> %s" % (str(before)[:300], str(a)[:300]))
        return r
    finally:
        os.chdir("..")


def tup_args(x):
    if isinstance(x, dict):
        return ("d",) + tuple(sorted((k, tup_args(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(tup_args(v) for v in x)
    if hasattr(x, "tolist"):
        return tup_args(x.tolist())
    return x


def forked(fn, limit=240):
    """fn() in a child process with the state of this one; its (picklable) result"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, limit)
            d = "f%d" % os.getpid()
            os.mkdir(d)
            os.chdir(d)
            out = pickle.dumps(fn())
            os.chdir("..")
            shutil.rmtree(d, ignore_errors=True)
            with os.fdopen(w, "wb") as f:
                f.write(out)
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        return ("died", "status %d" % status)
    return pickle.loads(data)


REF = {}


def reference(A, names):
    # the modules are loaded once; what they remember is what the calls below make them remember
    import phenum.enumeration, phenum.HNFs, phenum.structures, phenum.phenumStr, phenum.polyaburnside  # noqa
    import phenum.symmetry, phenum.element_data, phenum.vector_utils, phenum.io_utils, phenum.tree  # noqa
    import numpy.linalg  # noqa
    for n in names:
        if n not in REF:
            REF[n] = forked(lambda: one(A, n))
    return REF


def cases(tier):
    n = len(alphabet())
    q = tier == "quick"
    out = [{"kind": "pairs", "first": i, "again": not q} for i in range(n)]
    out += [{"kind": "chain", "rot": i, "len": 250 if q else 1200} for i in range(0, n, 12 if q else 2)]
    if q:
        out += [{"kind": "triples", "first": i, "over": "core"} for i in CORE]
    else:
        out += [{"kind": "triples", "first": i, "over": "all", "second": j} for i in range(n) for j in range(n)]
    out += [{"kind": "grid", "grid": g, "part": k, "of": PARTS.get(g, 1)} for g in GRIDS for k in range(PARTS.get(g, 1))]
    out += [{"kind": "forever", "first": i} for i in range(0, n, 6)]
    return out


def judge(st, hist, name, got):
    ref = REF[name]
    st.states += 1
    if ref[0] == "mutated":
        raise Violation("%s: %s" % (name, ref[1]), "args:" + name)
    if ref[0] != "ok":
        raise Violation("%s fails in a fresh process: %s" % (name, ref), "fresh:" + name)
    if got != ref:
        raise Violation("after %s, %s gives %s; in a fresh process %s"
                        % (" then ".join(hist) or "nothing", name, short(got, ref), short(ref, got)), "history")


def short(a, b):
    s, t = repr(a), repr(b)
    i = next((k for k, (x, y) in enumerate(zip(s, t)) if x != y), min(len(s), len(t)))
    return "..." + s[max(0, i - 60):i + 160]


def explore(case, st):
    if case["kind"] == "grid":
        return explore_grid(case, st)
    A = alphabet()
    names = list(A)
    reference(A, names)
    kind = case["kind"]
    if kind == "pairs":
        i = case["first"]
        again = i in CORE or case.get("again")

        def run():
            res = [(names[i], (), one(A, names[i]))]
            res.append((names[i], (names[i],), forked(lambda: one(A, names[i]))))
            for m in names:
                if not again and m.split(" ", 1)[1].split("(")[0] in ("cli", "hnfs", "space", "point"):
                    continue
                def two(m=m):
                    x = one(A, m)
                    y = one(A, names[i]) if again else None
                    return x, y
                r = forked(two)
                if r[0] == "died":
                    r = (r, None)
                res.append((m, (names[i],), r[0]))
                if again:
                    res.append((names[i], (names[i], m), r[1]))
            return res
        take(st, forked(run, 600))
    elif kind == "triples":
        i = case["first"]
        over = [names[k] for k in CORE] if case["over"] == "core" else names
        second = over if "second" not in case else [names[case["second"]]]

        def run():
            res = []
            one(A, names[i])
            for m in second:
                def inner(m=m):
                    one(A, m)
                    return [(o, (names[i], m), forked(lambda: one(A, o))) for o in over]
                r = forked(inner, 400)
                if r[0] == "died":
                    r = [(m, (names[i],), r)]
                res.extend(r)
            return res
        take(st, forked(run, 600))
    elif kind == "chain":
        seq = debruijn(len(names))
        n = len(names) * len(names)
        k = case["rot"] * len(names)
        part = [seq[(k + j) % len(seq)] for j in range(min(len(seq), case["len"]))]

        def run():
            res = []
            hist = []
            for x in part:
                res.append((names[x], tuple(hist[-3:]), one(A, names[x])))
                hist.append(names[x])
                if res[-1][2] != REF[names[x]]:
                    break
            return res
        take(st, forked(run, 600))
    elif kind == "forever":
        i = case["first"]

        def run():
            return [(names[i], ("itself %d times" % k,), one(A, names[i])) for k in range(12)]
        take(st, forked(run, 600))
    st.sample = {"calls compared": st.states}


def take(st, res):
    if isinstance(res, tuple) and res[:1] == ("died",):
        raise Violation("the process running the calls died: %s" % (res,), "died")
    for (name, hist, got) in res:
        st.transitions += 1
        st.traces += 1
        judge(st, hist, name, got)
        st.outcome((name, len(hist)))


def debruijn(n):
    """cyclic sequence containing every ordered pair once (order 2)"""
    seq = []
    for i in range(n):
        seq.append(i)
        for j in range(i + 1, n):
            seq += [i, j]
    return seq
