"""C25: bringing atoms into the cell moves them by lattice vectors only."""
from itertools import product
from .. import geom
from ..common import require
from .c07 import shears

Q = (-3.0, -1.75, -1.0, -1.0 / 3, 0.0, 1.0 / 7, 0.5, 2.0 / 3, 1.0, 1.5, 2.0, 7.25)
T = (-2.0, -1.0, 0.0, 1.0, 3.0)           # integers approached from both sides
D = (-5e-7, -3e-12, 0.0, 3e-12, 5e-7)
BOUNDS = {"quick": "56 parents (7 descriptions of each), every point with lattice coordinates out of 12 values between -3 and 7.25; every point within "
                   "-5e-7..5e-7 of lattice points and faces (5 integers, 5 offsets per coordinate); far cells (up to 400 away); both conversions",
          "thorough": "24 values per coordinate, 25 descriptions of each parent"}
ASSUMPTIONS = ["tolerance 1e-10 (the default)"]
EPS = 1e-10


def cases(tier):
    q = tier == "quick"
    us = shears(1)
    us = us[:1] + us[1::2] if q else us + shears(2)[1::9]
    return [{"lat": n, "U": u, "full": not q} for n in sorted(geom.ZOO) for u in us]


def explore(case, st):
    import numpy as np
    from phenum.symmetry import bring_into_cell
    from phenum.vector_utils import cartesian2direct
    lat = geom.ZOO[case["lat"]]
    U = case["U"]
    V = [[float(sum(U[i][k] * lat.vecs[k][j] for k in range(3))) for j in range(3)] for i in range(3)]
    M = np.transpose(np.array(V))
    inv = np.linalg.inv(M)
    q = Q if not case["full"] else Q + (-9.5, -2.0 / 3, -0.125, .1, .25, .3, .6, .75, .9, 1.1, 3.0, 11.875)
    pts = list(product(q, repeat=3))
    near = [t + d for t in T for d in D]
    pts += [p for a in near for p in ((a, .25, .5), (.25, a, 1.75), (-.5, .25, a))]
    pts += [(a, b, c) for a in near[::3] for b in near[::4] for c in near[::6]]
    pts += [(400.25, -.5, 0.0), (-399.5, 3.25, 12.0), (0.0, 100.0, -77.125)]
    what = "%s described by %s" % (lat.name, U)
    for p in pts:
        x = M.dot(p).tolist()
        y = bring_into_cell(list(x), inv, M, EPS)
        judge(p, inv.dot(np.array(y, float)), st, "%s: %s brought into the cell" % (what, p))
        st.traces += 1
        z = bring_into_cell(list(y), inv, M, EPS)
        require(max(abs(a - b) for a, b in zip(y, z)) < 1e-9, "%s: %s brought into the cell twice: %s, %s" % (what, p, y, z))
    r = cartesian2direct(V, [np.array(M.dot(p)) for p in pts], EPS)
    require(len(r) == len(pts), "%s: %d coordinates for %d atoms" % (what, len(r), len(pts)))
    for p, y in zip(pts, r):
        judge(p, y, st, "%s: direct coordinates of %s" % (what, p))
        st.traces += 1
    st.outcome(case["lat"])
    st.sample = {"points": len(pts)}


def judge(p, y, st, what):
    st.states += 1
    st.transitions += 1
    for a, b in zip(p, y):
        require(-1e-9 < b < 1 + 1e-12 - EPS * .5, "%s: coordinate %r is outside the cell" % (what, float(b)))
        d = a - b
        require(abs(d - round(d)) < 1e-9, "%s: %r became %r, not a lattice translation" % (what, a, float(b)))
