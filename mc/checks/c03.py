"""C03: enumeration with displaced atoms (arrows), superperiodic kept and excluded."""
from .. import geom
from ..enumcheck import Ref, check_enum, spread

BOUNDS = {"quick": "parents whose point group permutes the axes, every supercell up to 6 sites and a few of 7 to 10 sites, up to 4 "
                   "species and up to 5 displaced atoms, up to 4000 decorations per composition",
          "thorough": "every supercell up to 8 sites, some of up to 11 sites, up to 60000 decorations per composition"}
ASSUMPTIONS = ["displacements are only defined for parents whose symmetry permutes the Cartesian "
               "half-axes (the package stops with an error otherwise)"]


def lattices():
    return [(n, l) for n, l in sorted(geom.ZOO.items()) if l.has_cubic_axes()]


def concs(N, budget):
    """(concs, fractions) with a bounded number of decorations"""
    out = []
    seen = set()
    for k in (1, 2, 3, 4):
        for c in geom.compositions(N, k):
            if k == 3 and (N > 6 and max(c) < N - 3 or min(c) == 0 and N > 3):
                continue
            if k == 4 and (min(c) == 0 or N > 6):
                continue
            fr = {1: [(1.0,), (.5,), (.2,), (.34,)],
                  2: [(1.0, 0), (0, 1.0), (1.0, 1.0), (.5, 0), (0, .5), (.5, 1.0), (.5, .5), (.34, 0), (0, .2)],
                  3: [(1.0, 0, 0), (0, 1.0, 0), (0, 0, 1.0), (1.0, 0, 1.0), (0, .5, 1.0), (1., 1., 0), (.5, 0, 0), (1., 1., 1.)],
                  4: [(1.0, 0, 0, 0), (0, 0, 0, 1.0), (0, 1., 0, 1.), (0, 0, .5, 0)]}[k]
            for a in fr:
                ar = [int(x * y) for x, y in zip(c, a)]
                if sum(ar) == 0 or (c, tuple(ar)) in seen:
                    continue
                pl = [x - y for x, y in zip(c, ar)]
                if geom.multinomial(pl + ar) * 6 ** sum(ar) <= budget:
                    out.append((c, a))
                    seen.add((c, tuple(ar)))
    return out


def cases(tier):
    out = []
    q = tier == "quick"
    top = 6 if q else 8
    for name, lat in lattices():
        nb = len(lat.basis)
        for n in range(1, top // nb + 1):
            hs = [h for h, _ in geom.reduced_hnfs(lat, n)]
            pick = spread(hs, 4 if q else 40) + spread([h for h in geom.all_hnfs(n) if h not in hs], 1 if q else 5)
            for h in pick:
                for s in (True, False):
                    out.append({"lat": name, "H": h, "supers": s, "budget": (4000 if n * nb < 6 else 2000) if q else 60000})
        for n in range(top // nb + 1, (10 if q else 11) // nb + 1):
            for h in spread(geom.all_hnfs(n), 1 if q else 6):
                for s in (True, False):
                    out.append({"lat": name, "H": h, "supers": s, "budget": 1100 if q else 20000})
    out.sort(key=lambda c: -c["H"][0][0] * c["H"][1][1] * c["H"][2][2] * len(geom.ZOO[c["lat"]].basis))
    return out


def explore(case, st):
    ref = Ref(case["lat"], tuple(map(tuple, case["H"])))
    for c, a in concs(ref.cell.nsites, case["budget"]):
        check_enum(st, ref, c, a, case["supers"])
