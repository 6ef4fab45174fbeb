"""C01: full enumeration without displacements, superperiodic structures kept."""
from .. import geom
from ..enumcheck import Ref, check_enum, conc_list, spread

SUPERS = True
BOUNDS = {"quick": "every lattice of the zoo (1-4 sites per parent cell), every supercell up to 8 sites (up to 7 shapes per size), "
                   "1-6 species; cells of 9 to 12 sites of seven parents; up to 6000 decorations per composition",
          "thorough": "up to 10 sites per supercell, up to 40 shapes per size, more compositions; cells of up to 18 sites; "
                      "up to 60000 decorations per composition"}
ASSUMPTIONS = ["the parent lattices of the zoo have no accidental near-symmetry at the package's "
               "tolerance"]


def cases(tier):
    out = []
    q = tier == "quick"
    for name, lat in sorted(geom.ZOO.items()):
        nb = len(lat.basis)
        top = 8 if q else 10
        for n in range(1, top // nb + 1):
            hs = [h for h, _ in geom.reduced_hnfs(lat, n)]
            pick = spread(hs, 5 if q else 40)
            # and shapes which are not the listed representative of their class
            extra = [h for h in geom.all_hnfs(n) if h not in hs]
            pick += spread(extra, 2 if q else 8)
            for h in pick:
                out.append({"lat": name, "H": h, "lim": 6000 if q else 20000, "tier": tier})
    for name, ns in (("sc", (9, 10, 12)), ("fcc", (9, 10, 12)), ("bcc", (9, 12)), ("hex", (9, 10, 12)), ("tri", (9, 10, 11, 12)),
                     ("diamond", (5, 6)), ("hcp", (5, 6)), ("perov3", (3, 4)), ("ortho", (9, 12)), ("mono", (10, 12))):
        for n in ns if q else ns + tuple(k for k in (14, 16, 18) if len(geom.ZOO[name].basis) == 1):
            hs = geom.all_hnfs(n)
            for h in spread(hs, 4 if q else 12):
                out.append({"lat": name, "H": h, "lim": 6000 if q else 60000, "tier": "quick"})
    out.sort(key=lambda c: -c["H"][0][0] * c["H"][1][1] * c["H"][2][2] * len(geom.ZOO[c["lat"]].basis))
    return out


def explore(case, st, supers=None):
    supers = SUPERS if supers is None else supers
    H = tuple(map(tuple, case["H"]))
    ref = Ref(case["lat"], H)
    N = ref.cell.nsites
    cl = conc_list(N, case["tier"], 6)
    cl += [(1,)] if N == 1 else [(N,)]
    for c in cl:
        if geom.multinomial(c) > case["lim"]:
            continue
        check_enum(st, ref, c, [0] * len(c), supers)
