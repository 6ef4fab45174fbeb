"""C07: point group and space group of a crystal."""
from fractions import Fraction as F
from itertools import product
from .. import geom
from ..common import require

BOUNDS = {"quick": "every lattice of the zoo and 6 unimodular re-descriptions of each; every assignment of up to "
                   "3 atom types to the basis; Cartesian and lattice coordinates; the point group on 80 strongly skewed descriptions (shears "
                   "-1..1 of all three vectors, single shears up to 3) of 19 parents",
          "thorough": "every unimodular matrix with entries -1..1 of determinant 1 reachable in 2 shears"}
ASSUMPTIONS = ["the parent lattices have no accidental near-symmetry at the package's tolerance"]


def shears(depth):
    one = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
    seen = [one]
    fr = [one]
    for _ in range(depth):
        nf = []
        for m in fr:
            for i in range(3):
                for j in range(3):
                    if i == j:
                        continue
                    for s in (1, -1):
                        e = [[int(a == b) for b in range(3)] for a in range(3)]
                        e[i][j] = s
                        x = tuple(map(tuple, geom.matmul(e, [list(r) for r in m])))
                        if x not in seen:
                            seen.append(x)
                            nf.append(x)
        fr = nf
    return seen


def cases(tier):
    us = shears(1) if tier == "quick" else shears(2)
    perm = [((0, 1, 0), (0, 0, 1), (1, 0, 0)), ((0, 1, 0), (1, 0, 0), (0, 0, 1)), ((-1, 0, 0), (0, 1, 0), (0, 0, 1))]
    out = []
    for name, lat in sorted(geom.ZOO.items()):
        pick = [us[0]] + perm + (us[1::4] if tier == "quick" else us[1::2])
        for u in pick:
            out.append({"lat": name, "U": u})
    tri = []
    for a, b, c in product((-1, 0, 1), repeat=3):
        tri += [((1, 0, 0), (a, 1, 0), (b, c, 1)), ((1, a, b), (0, 1, c), (0, 0, 1))]
    for k in (2, -2, 3):
        for i, j in ((0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)):
            e = [[int(a == b) for b in range(3)] for a in range(3)]
            e[i][j] = k
            tri.append(tuple(map(tuple, e)))
    tri = sorted(set(tri))
    if tier == "thorough":
        tri = sorted(set(tri) | set(shears(3)))
    seen = set()
    for name, lat in sorted(geom.ZOO.items()):
        key = tuple(map(tuple, lat.vecs))
        if key in seen:
            continue
        seen.add(key)
        mine = [u for u in tri if box(describe(lat, u)) <= (500 if tier == "quick" else 4000)]
        step = 6 if tier == "quick" else 25
        for i in range(0, len(mine), step):
            out.append({"lat": name, "Us": mine[i:i + step]})
    out.sort(key=lambda c: "U" in c)
    return out


def box(lat):
    """number of lattice points the search for equivalent vectors has to look at"""
    inv = geom.inv3(geom.transpose(lat.vecs))
    r = max(sum(x * x for x in v) ** .5 for v in lat.vecs)
    n = 1
    for row in inv:
        n *= 2 * int(r * sum(x * x for x in row) ** .5 + 1) + 1
    return n


def describe(lat, U):
    """the same crystal on the vectors b_i = sum_j U[i][j] a_j (rows)"""
    vecs = [[sum(U[i][j] * lat.vecs[j][k] for j in range(3)) for k in range(3)] for i in range(3)]
    Ui = geom.inv3([list(r) for r in U])
    basis = [tuple(sum(b[j] * Ui[j][i] for j in range(3)) for i in range(3)) for b in lat.basis]
    return geom.Lattice(lat.name + "*", vecs, basis)


def to_lat(R, vecs):
    """lattice matrix of the Cartesian operation R acting on columns"""
    At = geom.transpose(vecs)
    M = geom.matmul(geom.matmul(geom.inv3([[float(x) for x in r] for r in At]), R), At)
    Mi = tuple(tuple(int(round(x)) for x in r) for r in M)
    require(all(abs(M[i][j] - Mi[i][j]) < 1e-6 for i in range(3) for j in range(3)),
            "operation %s does not map the lattice onto itself" % R)
    return Mi


def explore(case, st):
    from phenum.symmetry import get_lattice_pointGroup, get_spaceGroup
    base = geom.ZOO[case["lat"]]
    for U in case.get("Us", []):
        lat = describe(base, U)
        got = [to_lat(geom.transpose(R), lat.vecs) for R in get_lattice_pointGroup([list(v) for v in lat.vecs])]
        want = set(lat.point_group)
        require(len(want) == len(base.point_group), "oracle disagreement")
        st.states += len(want)
        st.traces += 1
        require(len(got) == len(set(got)) and set(got) == want, "%s as %s: point group of order %d (%d listed), it has %d operations" %
                (base.name, U, len(set(got)), len(got), len(want)))
        st.sample = "%s as %s: point group %d" % (base.name, U, len(want))
    if "Us" in case:
        return
    lat = describe(base, case["U"])
    what = "%s as %s" % (base.name, case["U"])
    ops = get_lattice_pointGroup([list(v) for v in lat.vecs])
    got = [to_lat(geom.transpose(R), lat.vecs) for R in ops]
    want = set(lat.point_group)
    st.states += len(want)
    st.traces += 1
    require(len(got) == len(set(got)), "%s: a point operation is listed twice" % what)
    require(set(got) == want, "%s: point group of order %d, it has %d operations" % (what, len(got), len(want)))
    require(len(want) == len(base.point_group), "oracle disagreement")
    st.outcome(len(want))
    nb = len(lat.basis)
    red = [geom.mod1(b) for b in lat.basis]
    types = sorted({canon_types(t) for t in product((1, 2, 3), repeat=nb)})
    for t in types:
        ref = set()
        for M in want:
            img0 = geom.matvec(M, red[0])
            for j in range(nb):
                if t[j] != t[0]:
                    continue
                s = geom.mod1([red[j][k] - img0[k] for k in range(3)])
                if all(any(t[i] == t[k] and geom.mod1([a + b for a, b in zip(geom.matvec(M, red[i]), s)]) == red[k]
                           for k in range(nb)) for i in range(nb)):
                    ref.add((M, s))
        for latt in (False, True):
            bas = [[float(x) for x in b] for b in lat.basis] if latt else lat.cart_basis
            (rots, shifts) = get_spaceGroup([list(v) for v in lat.vecs], list(t), bas, lattcoords=latt, **({"eps": 1e-8} if sum(t) % 2 else {}))
            seen = []
            Ainv = geom.inv3(geom.transpose(lat.vecs))
            for R, s in zip(rots, shifts):
                sl = geom.matvec(Ainv, s)
                sl = tuple(F(x).limit_denominator(400000) % 1 for x in sl)
                seen.append((to_lat(R, lat.vecs), sl))
            st.traces += 1
            st.states += len(ref)
            st.transitions += len(seen)
            require(len(set(seen)) == len(seen), "%s types %s: an operation is listed twice" % (what, t))
            require(set(seen) == ref, "%s types %s: %d space group operations, it has %d (missing %s, wrong %s)" %
                    (what, t, len(seen), len(ref), sorted(ref - set(seen))[:1], sorted(set(seen) - ref)[:1]))
    st.sample = "%s: point group %d, %d type assignments" % (what, len(want), len(types))


def canon_types(t):
    m = {}
    return tuple(m.setdefault(x, len(m) + 1) for x in t)
