"""C06: the supercell's permutation group is the exact geometric one."""
from .. import api, geom
from ..common import require
from ..enumcheck import Ref, spread

BOUNDS = {"quick": "every lattice of the zoo, up to 8 sites per supercell (12 for selected parents), up to 8 shapes "
                   "per size, with and without displacement directions",
          "thorough": "up to 12 sites, every shape up to 8 sites, 30 above"}
ASSUMPTIONS = ["the parent lattices have no accidental near-symmetry at the package's tolerance",
               "displacements are only defined for parents whose symmetry permutes the Cartesian half-axes"]


def cases(tier):
    out = []
    q = tier == "quick"
    for name, lat in sorted(geom.ZOO.items()):
        nb = len(lat.basis)
        top = 8 if q else 12
        for n in range(1, top + 1):
            if n * nb > top:
                break
            hs = [h for h, _ in geom.reduced_hnfs(lat, n)]
            extra = [h for h in geom.all_hnfs(n) if h not in set(hs)]
            pick = spread(hs, 5 if q else (999 if n * nb <= 8 else 30)) + spread(extra, 3 if q else 12)
            for h in pick:
                out.append({"lat": name, "H": h})
    if q:
        for name, n in (("fcc", 12), ("sc", 12), ("tri", 12), ("hex", 9), ("hcp", 6), ("diamond", 5), ("perov3", 4)):
            for h in spread([h for h, _ in geom.reduced_hnfs(geom.ZOO[name], n)], 2):
                out.append({"lat": name, "H": h})
    out.sort(key=lambda c: -c["H"][0][0] * c["H"][1][1] * c["H"][2][2] * len(geom.ZOO[c["lat"]].basis))
    return out


def explore(case, st):
    H = tuple(map(tuple, case["H"]))
    ref = Ref(case["lat"], H)
    cell = ref.cell
    trans = set(cell.translations())
    ident = tuple(range(6))
    what = "%s H=%s" % (ref.lat.name, api.six(H))
    for arrows in (False, True):
        if arrows and not ref.lat.has_cubic_axes():
            continue
        got = api.group(ref.lat, H, arrows)
        want = cell.group(arrows)
        st.states += len(want)
        st.traces += 1
        st.transitions += len(got)
        st.outcome((len(want), arrows))
        first = got[:cell.n]
        require({g[0] for g in first} == trans and len(first) == cell.n,
                "%s: the first %d operations are not the translations of the supercell: %s" %
                (what, cell.n, first[:3]))
        if arrows:
            require(all(g[1] == ident for g in first), "%s: a translation rotates the displacements" % what)
            seen = got
        else:
            seen = [(g[0], None) for g in got]
        require(len(set(seen)) == len(seen), "%s: an operation is listed more than once (%d listed, %d different)"
                % (what, len(seen), len(set(seen))))
        miss = want - set(seen)
        more = set(seen) - want
        require(not more, "%s displacements=%s: %s is no symmetry of the supercell" % (what, arrows, sorted(more)[:1]))
        require(not miss, "%s displacements=%s: %d of %d symmetries missing, e.g. %s" %
                (what, arrows, len(miss), len(want), sorted(miss)[:1]))
    st.sample = "%s: %d operations" % (what, len(want))
