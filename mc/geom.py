"""Reference model: exact crystallographic combinatorics in lattice coordinates.

Nothing in this module calls the code under test.  Everything is integer or
rational arithmetic except the metric test of a candidate point operation, for
which the lattices of the zoo are chosen with a wide gap (no accidental near
symmetries), so that the tolerance cannot decide anything.

Conventions (those the package documents in its output format)
  * a parent lattice is a list of three row vectors a1,a2,a3 (Cartesian);
  * basis points are given in lattice coordinates (Fractions);
  * a superlattice is the set {A^T H z}: the columns of the lower-triangular
    integer matrix H are its generators in lattice coordinates;
  * sites of a supercell are (basis index, z mod H Z^3).
"""
from fractions import Fraction as F
from itertools import product, permutations
from math import gcd, factorial
import math

TOL = 1e-7

# --------------------------------------------------------------- lattice zoo


class Lattice(object):
    def __init__(self, name, vecs, basis=((0, 0, 0),), sigma=None):
        self.name = name
        self.vecs = [list(map(float, v)) for v in vecs]
        self.basis = [tuple(F(x) for x in b) for b in basis]
        self._pg = None
        self._sg = None

    @property
    def cart_basis(self):
        return [[float(sum(float(b[k]) * self.vecs[k][j] for k in range(3)))
                 for j in range(3)] for b in self.basis]

    @property
    def point_group(self):
        if self._pg is None:
            self._pg = point_group(self.vecs)
        return self._pg

    @property
    def space_group(self):
        if self._sg is None:
            self._sg = space_group(self.point_group, self.basis)
        return self._sg

    def cart_rotation(self, M):
        """Cartesian matrix R with R a_k = sum_i M[i][k] a_i."""
        A = self.vecs
        At = [[A[k][i] for k in range(3)] for i in range(3)]       # columns a_k
        inv = inv3(At)
        return matmul(matmul(At, M), inv)

    def has_cubic_axes(self, op=None):
        """True when every point operation permutes +-x,+-y,+-z."""
        return all(arrow_perm(self.cart_rotation(M)) is not None
                   for M in self.point_group)

    def __repr__(self):
        return "%s(%d basis)" % (self.name, len(self.basis))


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def matvec(a, v):
    return [sum(a[i][k] * v[k] for k in range(len(v))) for i in range(len(a))]


def transpose(a):
    return [list(r) for r in zip(*a)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def adj3(m):
    return [[m[1][1] * m[2][2] - m[1][2] * m[2][1],
             m[0][2] * m[2][1] - m[0][1] * m[2][2],
             m[0][1] * m[1][2] - m[0][2] * m[1][1]],
            [m[1][2] * m[2][0] - m[1][0] * m[2][2],
             m[0][0] * m[2][2] - m[0][2] * m[2][0],
             m[0][2] * m[1][0] - m[0][0] * m[1][2]],
            [m[1][0] * m[2][1] - m[1][1] * m[2][0],
             m[0][1] * m[2][0] - m[0][0] * m[2][1],
             m[0][0] * m[1][1] - m[0][1] * m[1][0]]]


def inv3(m):
    """Inverse; exact (Fractions) for integer input."""
    d = det3(m)
    a = adj3(m)
    if all(isinstance(x, int) for r in m for x in r):
        return [[F(x, d) for x in r] for r in a]
    return [[x / d for x in r] for r in a]


def metric(vecs):
    return [[sum(x * y for x, y in zip(u, v)) for v in vecs] for u in vecs]


def point_group(vecs):
    """All integer M (det +-1) with M^T G M = G: the lattice point group."""
    G = metric(vecs)
    scale = max(G[i][i] for i in range(3))
    At = transpose(vecs)
    Ainv = inv3([[float(x) for x in r] for r in At])
    rad = math.sqrt(scale) * (1 + 1e-9)
    lim = [int(math.floor(rad * math.sqrt(sum(x * x for x in Ainv[i])) + 1e-9))
           for i in range(3)]
    cand = [[], [], []]
    vecs_n = list(product(*[range(-l, l + 1) for l in lim]))
    for n in vecs_n:
        q = sum(n[i] * G[i][j] * n[j] for i in range(3) for j in range(3))
        for k in range(3):
            if abs(q - G[k][k]) < TOL * scale:
                cand[k].append(n)

    def dot(u, v):
        return sum(u[i] * G[i][j] * v[j] for i in range(3) for j in range(3))
    ops = []
    for c0 in cand[0]:
        for c1 in cand[1]:
            if abs(dot(c0, c1) - G[0][1]) > TOL * scale:
                continue
            for c2 in cand[2]:
                if abs(dot(c0, c2) - G[0][2]) > TOL * scale or \
                        abs(dot(c1, c2) - G[1][2]) > TOL * scale:
                    continue
                M = [[c0[i], c1[i], c2[i]] for i in range(3)]
                assert abs(det3(M)) == 1
                ops.append(tuple(map(tuple, M)))
    return ops


def mod1(v):
    return tuple(F(x) % 1 for x in v)


def space_group(pg, basis):
    """[(M, t, perm)] acting x -> Mx + t (t mod 1) with basis[perm[i]] the image of i."""
    red = [mod1(b) for b in basis]
    index = {b: i for i, b in enumerate(red)}
    assert len(index) == len(red)
    out = []
    for M in pg:
        img0 = matvec(M, red[0])
        for b in red:
            t = mod1([b[i] - img0[i] for i in range(3)])
            perm = []
            for d in red:
                im = matvec(M, d)
                im = mod1([im[i] + t[i] for i in range(3)])
                if im not in index:
                    break
                perm.append(index[im])
            else:
                out.append((M, t, tuple(perm)))
    return out


# ------------------------------------------------------------------ superlattices


def all_hnfs(n):
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            for b in range(c):
                for d in range(f):
                    for e in range(f):
                        out.append(((a, 0, 0), (b, c, 0), (d, e, f)))
    return out


def col_hnf(B):
    """Canonical lower-triangular column HNF of an integer 3x3 matrix (det != 0)."""
    B = [list(r) for r in B]
    cols = transpose(B)
    for r in range(3):
        # gcd among columns r.. in row r
        while True:
            nz = [k for k in range(r, 3) if cols[k][r] != 0]
            if len(nz) == 1:
                k = nz[0]
                break
            k = min(nz, key=lambda q: abs(cols[q][r]))
            for q in nz:
                if q != k:
                    m = cols[q][r] // cols[k][r]
                    cols[q] = [x - m * y for x, y in zip(cols[q], cols[k])]
        cols[r], cols[k] = cols[k], cols[r]
        if cols[r][r] < 0:
            cols[r] = [-x for x in cols[r]]
        for q in range(r):
            m = cols[q][r] // cols[r][r]
            cols[q] = [x - m * y for x, y in zip(cols[q], cols[r])]
    return tuple(map(tuple, transpose(cols)))


def is_int_matrix(m):
    return all(F(x).denominator == 1 for r in m for x in r)


class Cell(object):
    """A supercell of a Lattice with the exact action of its symmetry group.

    Left: the (unimodular) left transform used to number the sites; the one the
    package prints in its output, so that labelings can be compared.
    """

    def __init__(self, lat, H, L, diag):
        self.lat = lat
        self.H = tuple(map(tuple, H))
        self.n = abs(det3(H))
        self.L = L
        self.diag = list(diag)
        self.nb = len(lat.basis)
        self.nsites = self.n * self.nb
        self.Linv = [[int(x) for x in r] for r in inv3([[int(x) for x in r] for r in L])]

    def zindex(self, z):
        g = [x % d for x, d in zip(matvec(self.L, z), self.diag)]
        return (g[0] * self.diag[1] + g[1]) * self.diag[2] + g[2]

    def zrep(self, idx):
        d = self.diag
        g = [idx // (d[1] * d[2]), (idx // d[2]) % d[1], idx % d[2]]
        return matvec(self.Linv, g)

    def fixing_ops(self):
        Hl = [list(r) for r in self.H]
        Hinv = inv3(Hl)
        return [op for op in self.lat.space_group
                if is_int_matrix(matmul(matmul(Hinv, op[0]), Hl))]

    def group(self, arrows=True):
        """set of (site_perm, arrow_perm): new[i] = old[site_perm[i]] and then every
        arrow a becomes arrow_perm[a].  arrow_perm is None when arrows is False."""
        out = set()
        reps = [self.zrep(i) for i in range(self.n)]
        red = [mod1(b) for b in self.lat.basis]
        for (M, t, perm) in self.fixing_ops():
            ap = None
            if arrows:
                ap = arrow_perm(self.lat.cart_rotation(M))
                if ap is None:
                    raise ValueError("arrows are not closed under the group")
            shift = []
            for i, d in enumerate(red):
                im = matvec(M, d)
                w = [im[k] + t[k] - red[perm[i]][k] for k in range(3)]
                assert all(F(x).denominator == 1 for x in w)
                shift.append([int(x) for x in w])
            imgs = [[self.zvec(M, reps[z], shift[i]) for z in range(self.n)]
                    for i in range(self.nb)]
            for tr in reps:
                p = [None] * self.nsites
                for i in range(self.nb):
                    for z in range(self.n):
                        w = [a + b for a, b in zip(imgs[i][z], tr)]
                        dest = perm[i] * self.n + self.zindex(w)
                        p[dest] = i * self.n + z
                out.add((tuple(p), ap))
        return out

    @staticmethod
    def zvec(M, z, s):
        v = matvec(M, z)
        return [v[k] + s[k] for k in range(3)]

    def translations(self):
        reps = [self.zrep(i) for i in range(self.n)]
        out = []
        for tr in reps:
            p = [None] * self.nsites
            for i in range(self.nb):
                for z in range(self.n):
                    w = [a + b for a, b in zip(reps[z], tr)]
                    p[i * self.n + self.zindex(w)] = i * self.n + z
            out.append(tuple(p))
        return out


AXES = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def arrow_perm(R):
    """perm with arrow a -> index of R a; None when R does not permute +-x,+-y,+-z."""
    out = []
    for a in AXES:
        v = matvec(R, a)
        r = tuple(int(round(x)) for x in v)
        if max(abs(x - y) for x, y in zip(v, r)) > 1e-6 or r not in AXES:
            return None
        out.append(AXES.index(r))
    return tuple(out)


# --------------------------------------------------------------- orbit oracle


def multinomial(c):
    out = factorial(sum(c))
    for x in c:
        out //= factorial(x)
    return out


def words(counts):
    """All words with counts[i] letters i+1, lexicographic order."""
    counts = list(counts)
    n = sum(counts)
    w = []

    def rec():
        if len(w) == n:
            yield tuple(w)
            return
        for i in range(len(counts)):
            if counts[i]:
                counts[i] -= 1
                w.append(i + 1)
                for x in rec():
                    yield x
                w.pop()
                counts[i] += 1
    return rec()


def colorings(species, arrowed):
    """All decorations: species[i] = number of undisplaced atoms of species i+1,
    arrowed[i] = number of displaced ones.  A letter is (arrow, species) with
    arrow -1 for an undisplaced atom."""
    letters = []
    counts = []
    for i, c in enumerate(species):
        if c:
            letters.append((-1, i + 1))
            counts.append(c)
    kinds = []
    for i, c in enumerate(arrowed):
        if c:
            letters.append((0, i + 1))
            counts.append(c)
    for w in words(counts):
        base = [letters[x - 1] for x in w]
        pos = [i for i, l in enumerate(base) if l[0] >= 0]
        for arr in product(range(6), repeat=len(pos)):
            out = list(base)
            for p, a in zip(pos, arr):
                out[p] = (a, base[p][1])
            yield tuple(out)


def act(op, word):
    """Action of (site_perm, arrow_perm) on a decoration of (arrow, species)."""
    sp, ap = op
    if ap is None:
        return tuple(word[i] for i in sp)
    return tuple((word[i] if word[i][0] < 0 else (ap[word[i][0]], word[i][1])) for i in sp)


def orbit(group, word):
    return {act(g, word) for g in group}


def aperiodic(translations, word):
    ident = tuple(range(len(word)))
    return not any(t != ident and tuple(word[i] for i in t) == word for t in translations)


def canon(group, word):
    return min(act(g, word) for g in group)


def cycles(p):
    seen = [False] * len(p)
    out = []
    for i in range(len(p)):
        if seen[i]:
            continue
        l = 0
        j = i
        cyc = []
        while not seen[j]:
            seen[j] = True
            cyc.append(j)
            j = p[j]
        out.append(cyc)
    return out


def fixed_count(op, plain, arrowed, nd=6):
    """Number of decorations fixed by one operation, exact integers.

    Dynamic programming over the cycles of the site permutation: a cycle of
    length l is filled by one undisplaced species, or by one displaced species
    with an arrow fixed by arrow_perm**l."""
    sp, ap = op
    cl = [len(c) for c in cycles(sp)]
    counts = tuple(plain) + tuple(arrowed)
    npl = len(plain)
    if ap is not None:
        acl = [len(c) for c in cycles(ap)]
    else:
        acl = [1] * nd
    state = {counts: 1}
    for l in cl:
        w = sum(x for x in acl if l % x == 0)
        new = {}
        for st, v in state.items():
            for i, c in enumerate(st):
                if c >= l:
                    k = st[:i] + (c - l,) + st[i + 1:]
                    new[k] = new.get(k, 0) + v * (1 if i < npl else w)
        state = {k: v for k, v in new.items() if v}
    return state.get(tuple([0] * len(counts)), 0)


def burnside(group, plain, arrowed=(), nd=6):
    tot = sum(fixed_count(g, plain, arrowed, nd) for g in group)
    q, r = divmod(tot, len(group))
    assert r == 0
    return q


# ----------------------------------------------------------------------- zoo

S3 = math.sqrt(3.0)


def zoo():
    L = Lattice
    z = {}

    def add(name, vecs, basis=((0, 0, 0),)):
        z[name] = L(name, vecs, basis)
    h = F(1, 2)
    t = F(1, 3)
    q = F(1, 4)
    SC = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    FCC = [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
    BCC = [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]
    HEX = [[1, 0, 0], [.5, S3 / 2, 0], [0, 0, 1.6]]
    HEX120 = [[1, 0, 0], [-.5, S3 / 2, 0], [0, 0, 1.6]]
    TET = [[1, 0, 0], [0, 1, 0], [0, 0, 1.4]]
    BCT = [[-.5, .5, .7], [.5, -.5, .7], [.5, .5, -.7]]
    ORT = [[1, 0, 0], [0, 1.2, 0], [0, 0, 1.5]]
    BCO = [[.5, .6, 0], [-.5, .6, 0], [0, 0, 1.5]]
    FCO = [[0, .6, .75], [.5, 0, .75], [.5, .6, 0]]
    MON = [[1, 0, 0], [.3, 1.2, 0], [0, 0, 1.5]]
    TRI = [[1, 0, 0], [.3, 1.2, 0], [.2, .25, 1.5]]
    RHO = [[1, .2, .2], [.2, 1, .2], [.2, .2, 1]]
    add("sc", SC)
    add("fcc", FCC)
    add("bcc", BCC)
    add("hex", HEX)
    add("hex120", HEX120)
    add("tet", TET)
    add("bct", BCT)
    add("ortho", ORT)
    add("bco", BCO)
    add("fco", FCO)
    add("mono", MON)
    add("tri", TRI)
    add("rhom", RHO)
    # skewed, left-handed and unreduced descriptions of the same lattices
    add("sc_left", [[0, 1, 0], [1, 0, 0], [0, 0, 1]])
    add("sc_skew", [[1, 0, 0], [1, 1, 0], [0, 1, 1]])
    add("tet_z", [[1.4, 0, 0], [0, 1, 0], [0, 0, 1]])
    # one atom away from the origin
    add("sc_off", SC, ((q, h, t),))
    add("fcc_off", FCC, ((q, q, q),))
    # multi-site parents
    add("hcp", HEX, ((0, 0, 0), (t, t, h)))
    add("hcp_c", HEX, ((F(1, 6), F(1, 6), q), (-F(1, 6), -F(1, 6), -q)))
    add("hcp120", HEX120, ((0, 0, 0), (t, 2 * t, h)))
    add("hcp120_c", HEX120, ((t, 2 * t, q), (2 * t, t, 3 * q)))
    add("diamond", FCC, ((0, 0, 0), (q, q, q)))
    add("diamond_c", FCC, ((F(1, 8),) * 3, (-F(1, 8),) * 3))
    add("fcc_line", FCC, ((0, 0, 0), (q, 0, 0)))
    add("sc_h2", SC, ((0, 0, 0), (h, h, 0)))        # tetragonal site set on a cubic lattice
    add("rutile_like", TET, ((F(3, 10), F(3, 10), 0), (-F(3, 10), -F(3, 10), 0)))
    add("perov3", SC, ((h, 0, 0), (0, h, 0), (0, 0, h)))
    add("perov3_o", SC, ((0, h, h), (h, 0, h), (h, h, 0)))
    add("perov4", SC, ((0, 0, 0), (h, h, 0), (h, 0, h), (0, q, q)))
    add("pyr4", FCC, ((0, 0, 0), (h, 0, 0), (0, h, 0), (0, 0, h)))
    add("chiral3", SC, ((q, 0, F(1, 10)), (F(1, 10), q, 0), (0, F(1, 10), q)))
    add("tet4", TET, ((F(1, 5), F(1, 10), 0), (-F(1, 10), F(1, 5), 0),
                      (-F(1, 5), -F(1, 10), 0), (F(1, 10), -F(1, 5), 0)))
    add("hex3", HEX120, ((h, 0, 0), (0, h, 0), (h, h, 0)))       # kagome
    add("honey", HEX120, ((t, 2 * t, 0), (2 * t, t, 0)))
    add("tri2", TRI, ((0, 0, 0), (F(1, 5), F(3, 10), F(2, 5))))
    add("ortho2", ORT, ((0, 0, 0), (h, F(3, 10), q)))
    add("mono2_out", MON, ((0, 0, 0), (F(6, 5), -F(3, 10), q)))   # a site outside the cell
    add("sc_out", SC, ((F(5, 4), -F(1, 2), 3),))
    # almost more symmetric than they are
    add("tet_near", [[1, 0, 0], [0, 1, 0], [0, 0, 1.002]])
    add("ortho_near", [[1, 0, 0], [0, 1.002, 0], [0, 0, .999]])
    add("fcc_near", [[0, .5, .501], [.5, 0, .501], [.5, .5, 0]])
    add("mono_near", [[1, 0, 0], [.003, 1, 0], [0, 0, 1.3]])
    add("hex_near", [[1, 0, 0], [.5, S3 / 2 + .001, 0], [0, 0, 1.6]])
    add("rhom_near", [[1, .002, .002], [.002, 1, .002], [.002, .002, 1]])
    # off by a few times 1e-5, still far above the package's tolerance
    add("tet_near5", [[1, 0, 0], [0, 1, 0], [0, 0, 1.00003]])
    add("fcc_near5", [[0, .5, .50002], [.5, 0, .50002], [.5, .5, 0]])
    add("h2_near5", SC, ((0, 0, 0), (h + F(1, 50000), h, 0)))
    add("dia_near5", FCC, ((0, 0, 0), (q, q, q + F(1, 40000))))
    # atoms just inside the far face of the cell
    add("sc_edge", SC, ((0, 0, 0), (q, q, F(1999, 2000))))
    add("tet_edge", TET, ((q, 0, F(4999, 5000)), (F(99999, 100000), h, h)))
    # other length scales, general orientation
    add("dia_si", [[0, 2.715, 2.715], [2.715, 0, 2.715], [2.715, 2.715, 0]], ((0, 0, 0), (q, q, q)))
    add("hcp_big", [[32.1 * x for x in r] for r in HEX], ((t, t, q), (2 * t, 2 * t, 3 * q)))
    add("tet_tiny", [[.01 * x for x in r] for r in TET])
    c1, s1, c2, s2 = math.cos(.7), math.sin(.7), math.cos(1.9), math.sin(1.9)

    def turn(v):
        x, y, w = c1 * v[0] - s1 * v[1], s1 * v[0] + c1 * v[1], v[2]
        return [x, c2 * y - s2 * w, s2 * y + c2 * w]
    add("sc_turned", [turn(v) for v in SC])
    add("dia_turned", [turn(v) for v in FCC], ((0, 0, 0), (q, q, q)))
    return z


ZOO = zoo()


# ------------------------------------------------- explicit state graph of a cell

def _ops_generators(ops):
    """A generating subset of [(M, t, perm)] (composition modulo lattice translations)."""
    def mul(a, b):
        M = tuple(tuple(r) for r in matmul(a[0], b[0]))
        t = matvec(a[0], b[1])
        return (M, mod1([t[i] + a[1][i] for i in range(3)]))
    allops = {(tuple(map(tuple, M)), t): (M, t, p) for (M, t, p) in ops}
    ident = (((1, 0, 0), (0, 1, 0), (0, 0, 1)), (F(0), F(0), F(0)))
    have = {ident}
    gens = []
    for k in sorted(allops, key=lambda q: (sum(abs(x) for r in q[0] for x in r), str(q))):
        if k in have:
            continue
        gens.append(k)
        have = {ident}
        frontier = [ident]
        while frontier:
            nf = []
            for x in frontier:
                for g in gens:
                    y = mul(g, x)
                    if y not in have:
                        have.add(y)
                        nf.append(y)
            frontier = nf
        if len(have) == len(allops):
            break
    return [allops[g] for g in gens]


def cell_generators(cell, arrows):
    """Site/arrow permutations generating the symmetry group of the supercell."""
    out = []
    n, nb = cell.n, cell.nb
    reps = [cell.zrep(i) for i in range(n)]
    for e in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
        p = [None] * cell.nsites
        for i in range(nb):
            for z in range(n):
                w = [a + b for a, b in zip(reps[z], e)]
                p[i * n + cell.zindex(w)] = i * n + z
        out.append((tuple(p), tuple(range(6)) if arrows else None))
    red = [mod1(b) for b in cell.lat.basis]
    for (M, t, perm) in _ops_generators(cell.fixing_ops()):
        ap = arrow_perm(cell.lat.cart_rotation(M)) if arrows else None
        p = [None] * cell.nsites
        for i, d in enumerate(red):
            im = matvec(M, d)
            s = [int(im[k] + t[k] - red[perm[i]][k]) for k in range(3)]
            for z in range(n):
                w = cell.zvec(M, reps[z], s)
                p[perm[i] * n + cell.zindex(w)] = i * n + z
        out.append((tuple(p), ap))
    ident = tuple(range(cell.nsites))
    uniq = []
    for g in out:
        if g not in uniq and not (g[0] == ident and g[1] in (None, tuple(range(6)))):
            uniq.append(g)
    return uniq


def orbits(gens, words_):
    """Explicit exploration of the state graph: {word: orbit number}, orbits, transitions."""
    comp = {}
    norb = 0
    trans = 0
    for w in words_:
        if w in comp:
            continue
        comp[w] = norb
        stack = [w]
        while stack:
            x = stack.pop()
            for g in gens:
                y = act(g, x)
                trans += 1
                if y not in comp:
                    comp[y] = norb
                    stack.append(y)
        norb += 1
    return comp, norb, trans


def reduced_hnfs(lat, n):
    """One HNF per class of sublattices equivalent under the parent's symmetry, and the
    size of each class."""
    rots = {op[0] for op in lat.space_group}
    seen = {}
    out = []
    for H in all_hnfs(n):
        if H in seen:
            continue
        orb = {col_hnf(matmul([list(r) for r in M], [list(r) for r in H])) for M in rots}
        for x in orb:
            seen[x] = len(out)
        out.append((H, len(orb)))
    return out


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, k - 1):
            yield (i,) + r
