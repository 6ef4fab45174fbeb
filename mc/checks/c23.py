"""C23: results do not depend on how the parent crystal is described."""
import math
from itertools import permutations
from .. import api, geom
from ..common import require
from .c07 import shears

BOUNDS = {"quick": "every parent of the zoo under every single re-description (unimodular changes of basis: permuted, left-handed, sheared "
                   "vectors; two shifts of origin; orders of the basis; atoms moved to other cells; rotations; scales) and a fixed family of "
                   "combinations of them, supercells of index 1-2 (10 parents: 1-3), up to 8 sites, with displacement directions where they are defined",
          "thorough": "every pair of re-descriptions, every shear of depth 2 with up to 90 lattice points within its longest vector (quick: 40), supercells up to index 5"}
ASSUMPTIONS = ["the parent lattices have no accidental near-symmetry at the package's tolerance"]
TIMEOUT = 600

US = {"swap": ((0, 1, 0), (1, 0, 0), (0, 0, 1)), "cyc": ((0, 1, 0), (0, 0, 1), (1, 0, 0)), "neg": ((-1, 0, 0), (0, 1, 0), (0, 0, 1)),
      "inv": ((-1, 0, 0), (0, -1, 0), (0, 0, -1)), "s01": ((1, 1, 0), (0, 1, 0), (0, 0, 1)), "s20": ((1, 0, 0), (0, 1, 0), (-1, 0, 1)),
      "s12x2": ((1, 0, 0), (0, 1, 2), (0, 0, 1)), "mix": ((1, 1, 0), (0, 1, 1), (0, 0, 1)), "mix2": ((1, 0, 0), (-1, 1, 0), (1, -1, 1))}
SHIFT = {"a": (.13, .27, .41), "b": (-.5, .25, .5), "c": (7.0, -3.5, 1.0 / 3)}
ROT = {"turn": None, "x90": ((1, 0, 0), (0, 0, -1), (0, 1, 0)), "cyc": ((0, 1, 0), (0, 0, 1), (1, 0, 0)), "mirror": ((1, 0, 0), (0, -1, 0), (0, 0, 1))}
DEEP = ("sc", "hex", "hcp", "diamond", "tri2", "perov3", "ortho2", "bct", "mono2_out", "honey")
c1, s1, c2, s2 = math.cos(.7), math.sin(.7), math.cos(1.9), math.sin(1.9)
ROT["turn"] = geom.matmul([[1, 0, 0], [0, c2, -s2], [0, s2, c2]], [[c1, -s1, 0], [s1, c1, 0], [0, 0, 1]])
SCALE = {"k": 11.3, "m": .13}


class Described(object):
    """the crystal `lat` in other words; d: {kind: name}"""

    def __init__(self, lat, d):
        V = [list(v) for v in lat.vecs]
        B = [list(b) for b in lat.cart_basis]
        if "shift" in d:        # in fractions of the lattice vectors
            f = SHIFT[d["shift"]]
            t = [sum(f[k] * V[k][j] for k in range(3)) for j in range(3)]
            B = [[b[j] + t[j] for j in range(3)] for b in B]
        if "cell" in d:         # every atom in another cell
            B = [[b[j] + sum(((i + 1 + k) % 3 - 1) * V[k][j] for k in range(3)) for j in range(3)] for i, b in enumerate(B)]
        if "order" in d:
            B = [B[i] for i in d["order"]]
        if "U" in d:
            U = d["U"] if not isinstance(d["U"], str) else US[d["U"]]
            V = [[float(sum(U[i][k] * V[k][j] for k in range(3))) for j in range(3)] for i in range(3)]
        if "scale" in d:
            V = [[SCALE[d["scale"]] * x for x in v] for v in V]
            B = [[SCALE[d["scale"]] * x for x in v] for v in B]
        if "rot" in d:
            R = ROT[d["rot"]]
            V = [geom.matvec(R, v) for v in V]
            B = [geom.matvec(R, v) for v in B]
        self.vecs, self.cart_basis = V, B
        self.turned = d.get("rot") == "turn"


def sphere(V):
    """lattice points no longer than the longest of V: the cost of a description"""
    m = max(sum(x * x for x in v) for v in V) + 1e-9
    k = range(-6, 7)
    return sum(1 for a in k for b in k for c in k if sum((a * V[0][j] + b * V[1][j] + c * V[2][j]) ** 2 for j in range(3)) <= m)


def descriptions(lat, tier):
    nb = len(lat.basis)
    orders = list(permutations(range(nb)))[1:]
    if nb > 3:
        orders = [orders[0], orders[len(orders) // 2], orders[-1]]
    one = [{"U": u} for u in US] + [{"shift": s} for s in SHIFT] + [{"order": list(o)} for o in orders]
    one += [{"rot": r} for r in ROT] + [{"scale": s} for s in SCALE] + [{"cell": 1}]
    both = [{"U": "mix", "shift": "a", "rot": "turn"}, {"U": "s01", "rot": "x90", "scale": "m"}, {"U": "neg", "shift": "b", "cell": 1},
            {"U": "mix2", "scale": "k", "rot": "turn", "shift": "c"}, {"U": "cyc", "cell": 1, "rot": "mirror"}]
    if orders:
        both += [{"order": list(orders[-1]), "shift": "a", "U": "s20"}, {"order": list(orders[0]), "rot": "turn", "cell": 1}]
    if tier == "thorough":
        one += [{"U": u} for u in shears(2)[1:]]
        for i, a in enumerate(one[:24]):
            for b in one[:24][i + 1:]:
                if not set(a) & set(b):
                    both.append(dict(a, **b))
    return one + both


def cases(tier):
    q = tier == "quick"
    out = []
    for name, lat in sorted(geom.ZOO.items()):
        ds = descriptions(lat, tier)
        ds = [(sphere(Described(lat, d).vecs), d) for d in ds]
        ds = [(c, d) for c, d in ds if c <= (40 if q else 90)]
        k = 4 if q else 12
        for i in range(0, len(ds), k):
            out.append({"lat": name, "ds": [d for _, d in ds[i:i + k]], "top": 2 if q and name not in DEEP else 3 if q else 5,
                        "sites": 8 if q else 10, "cost": sum(c ** 3 for c, _ in ds[i:i + k])})
    out.sort(key=lambda c: -c.pop("cost") * c["top"])
    return out


def facts(lat, n):
    """exact: sorted (number of operations, counts per composition, ...) of every inequivalent supercell"""
    out = []
    for H, _ in geom.reduced_hnfs(lat, n):
        diag, L = api.snf(H)
        cell = geom.Cell(lat, H, L, diag)
        out.append(supercell(cell.group(False), cell.group(True) if lat.has_cubic_axes() else None, len(lat.basis) * n))
    return sorted(out)


def compositions(N):
    return list(geom.compositions(N, 2)) + [c for c in geom.compositions(N, 3) if N <= 4 and max(c) <= 2 + N // 2 and min(c) >= 1]


def supercell(plain, arrows, N):
    row = [len(plain)] + [geom.burnside([(g[0], None) for g in plain], c) for c in compositions(N)]
    if arrows is None:
        return tuple(row) + (-1,)
    return tuple(row) + (len(arrows), geom.burnside(arrows, (N - 1,), (1,)), geom.burnside(arrows, (), (N,)) if N <= 6 else 0)


def explore(case, st):
    lat = geom.ZOO[case["lat"]]
    nb = len(lat.basis)
    from phenum.HNFs import get_HNFs
    from phenum.polyaburnside import polya
    exact = {}
    for d in case["ds"]:
        D = Described(lat, d)
        for n in range(1, case["top"] + 1):
            if n * nb > max(case["sites"], nb):
                break
            if n not in exact:
                exact[n] = facts(lat, n)
            N = n * nb
            hs = get_HNFs(n, [list(v) for v in D.vecs], [list(b) for b in D.cart_basis], 3)
            got = []
            what = "%s described with %s, index %d" % (lat.name, d, n)
            for H in hs:
                g = [[list(a), list(b)] for a, b in api.group(D, H, False)]
                row = [len(g)] + [polya(list(c), g) for c in compositions(N)]
                if lat.has_cubic_axes() and not D.turned:
                    ga = [[list(a), list(b)] for a, b in api.group(D, H, True)]
                    row += [len(ga), polya([N - 1, 1], ga, arrowings=1), polya([N], ga, arrowings=1) if N <= 6 else 0]
                else:
                    row += [-1]
                got.append(tuple(row))
                st.states += len(g)
                st.transitions += len(row)
                st.traces += len(row)
            want = exact[n]
            if D.turned and lat.has_cubic_axes():
                m = len(compositions(N)) + 1
                want = sorted(w[:m] + (-1,) for w in want)
            require(sorted(got) == want, "%s: supercells have (operations, structures per composition, ...) %s, the crystal itself has %s"
                    % (what, sorted(got)[:6], want[:6]))
            st.outcome((n, len(hs), sorted(got)[0]))
    st.sample = {"descriptions": len(case["ds"]), "supercells of index 2": len(exact.get(2, []))}
