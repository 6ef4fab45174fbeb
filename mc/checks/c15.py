"""C15: an enumerated structure mapped to real space."""
from .. import api, geom
from ..common import require
from ..enumcheck import spread

BOUNDS = {"quick": "56 parents (1-4 basis sites), every Hermite form of index up to 8 and 120 of each index up to 9 (16 for six parents), left-handed, rescaled and shifted descriptions, 2-5 species, reduced and not",
          "thorough": "every Hermite form of index up to 16 for every parent, up to 30 for six parents"}
ASSUMPTIONS = ["positions agree within 1e-6"]
TALL = ("tri", "fcc", "sc", "hex", "hcp", "mono")
TOL = 1e-6

EXTRA = {
    "left-handed": geom.Lattice("left-handed", [[0, 1, 0], [1, 0, 0], [0, 0, 1.3]], [(0, 0, 0), ("1/2", "1/3", "1/4")]),
    "outside": geom.Lattice("outside", [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [("5/4", "-1/2", 2), ("1/2", "7/4", "-3/4")]),
    "large": geom.Lattice("large", [[11.3, 0, 0], [1.5, 9.1, 0], [-2.2, 3.1, 14.7]], [(0, 0, 0), ("1/2", "1/2", "1/8")]),
    "small": geom.Lattice("small", [[.11, 0, 0], [.05, .13, 0], [0, .02, .17]], [("1/5", "1/3", "3/4")]),
    "negative": geom.Lattice("negative", [[-1, 0, 0], [0, -1, 0], [-.5, -.5, .7]], [(0, 0, 0)]),
}


def cases(tier):
    q = tier == "quick"
    out = []
    for name in sorted(geom.ZOO):
        top = (16 if name in TALL else 9) if q else (30 if name in TALL else 16)
        for n in range(1, top + 1):
            hs = list(geom.all_hnfs(n))
            if q and n > 8:
                hs = spread(hs, 120)
            for i in range(0, len(hs), 30):
                out.append({"lat": name, "n": n, "Hs": hs[i:i + 30]})
    for name in sorted(EXTRA):
        for n in range(1, 9 if q else 16):
            hs = list(geom.all_hnfs(n))
            for i in range(0, len(hs), 60):
                out.append({"lat": name, "n": n, "Hs": hs[i:i + 60]})
    out.sort(key=lambda c: -c["n"] * len(c["Hs"]))
    return out


def explore(case, st):
    lat = EXTRA.get(case["lat"]) or geom.ZOO[case["lat"]]
    for H in case["Hs"]:
        one(lat, tuple(map(tuple, H)), st)


def structure(lat, H, diag, L, labeling, directions=None):
    nb = len(lat.basis)
    n = H[0][0] * H[1][1] * H[2][2]
    from numpy import transpose
    system = {"plattice": transpose([list(v) for v in lat.vecs]), "dvecs": [list(v) for v in lat.cart_basis],
              "title": "t", "bulksurf": "bulk", "nD": nb, "k": 1 + max(int(c) for c in labeling), "eps": 1e-7}
    s = {"strN": 1, "hnfN": 1, "hnf_degen": 1, "lab_degen": 1, "tot_degen": 1, "sizeN": 1, "n": n, "pgOps": 1,
         "diag": list(diag), "HNF": [list(r) for r in H], "L": [list(r) for r in L], "labeling": labeling,
         "directions": directions or "0" * len(labeling)}
    return system, s


def lattcoords(lat, p):
    inv = geom.inv3(lat.vecs)
    return [sum(p[i] * inv[i][j] for i in range(3)) for j in range(3)]


def one(lat, H, st):
    from phenum.vector_utils import map_enumStr_to_real_space, cartesian2direct
    diag, L = api.snf(H)
    cell = geom.Cell(lat, H, L, diag)
    nb = len(lat.basis)
    N = cell.n * nb
    k = 2 + (N + H[2][0]) % 4
    labeling = "".join(str((i * 7 + i // 3) % k) for i in range(N))
    if len(set(labeling)) < k and N >= k:
        labeling = "".join(str(i % k) for i in range(N))
    k = 1 + max(map(int, labeling))
    for mink in (False, True):
        system, s = structure(lat, H, diag, L, labeling)
        what = "%s H=%s reduced=%s" % (lat.name, api.six(H), mink)
        sd = map_enumStr_to_real_space(system, s, mink)
        st.traces += 1
        # the lattice
        B = []
        for v in sd["sLV"]:
            c = lattcoords(lat, [float(x) for x in v])
            r = [int(round(x)) for x in c]
            require(max(abs(x - y) for x, y in zip(c, r)) < TOL,
                    "%s: %s is no vector of the parent lattice" % (what, list(v)))
            B.append(r)
        # columns of B^T generate the superlattice
        require(geom.col_hnf(geom.transpose(B)) == geom.col_hnf(H),
                "%s: the lattice vectors %s do not span the supercell" % (what, B))
        pos = [[float(x) for x in p] for p in sd["aBas"]]
        idx = [int(i) for i in sd["gIndx"]]
        require(len(pos) == N and len(idx) == N, "%s: %d positions and %d indices for %d sites" % (what, len(pos), len(idx), N))
        require(sorted(idx) == list(range(N)), "%s: site indices %s" % (what, idx))
        for p, i in zip(pos, idx):
            b = i // cell.n
            c = lattcoords(lat, p)
            z = [c[j] - float(lat.basis[b][j]) for j in range(3)]
            r = [int(round(x)) for x in z]
            require(max(abs(x - y) for x, y in zip(z, r)) < TOL,
                    "%s: %s is not a site of basis atom %d" % (what, p, b + 1))
            require(cell.zindex(r) == i % cell.n,
                    "%s: position %s carries site %d, it is site %d" % (what, r, i, b * cell.n + cell.zindex(r)))
            st.states += 1
        x = [float(v) for v in sd["x"]]
        require(len(x) == k and all(abs(x[j] - labeling.count(str(j)) / float(N)) < 1e-9 for j in range(k)),
                "%s: concentrations %s of %s" % (what, x, labeling))
        d = cartesian2direct([list(v) for v in sd["sLV"]], [list(p) for p in pos], system["eps"])
        st.traces += 1
        require(len(d) == N, "%s: %d direct positions" % (what, len(d)))
        slv = [[float(v) for v in r] for r in sd["sLV"]]
        inv = geom.inv3(slv)
        for p, q in zip(pos, d):
            q = [float(v) for v in q]
            require(all(-2e-7 <= v < 1 + 1e-12 for v in q), "%s: direct coordinates %s outside the cell" % (what, q))
            back = [sum(q[a] * slv[a][j] for a in range(3)) - p[j] for j in range(3)]
            c = [sum(back[a] * inv[a][j] for a in range(3)) for j in range(3)]
            require(max(abs(v - round(v)) for v in c) < TOL,
                    "%s: direct coordinates %s are not the position %s" % (what, q, p))
            st.transitions += 1
        st.outcome((api.six(H), lat.name, mink))
    st.sample = "%s H=%s: %d sites, labeling %s" % (lat.name, api.six(H), N, labeling)
