"""Shared by C01, C02, C03: the enumeration against the explicit state graph."""
from . import api, geom
from .common import require


def conc_list(n, tier, kmax=4):
    """concentration vectors explored for n sites"""
    out = []
    for k in (2, 3, 4, 5, 6):
        if k > kmax:
            break
        lim = {2: 99, 3: 4, 4: 3, 5: 1, 6: 1} if tier == "quick" else {2: 99, 3: 7, 4: 5, 5: 4, 6: 2}
        if n <= lim[k]:
            out += list(geom.compositions(n, k))
        else:
            pats = {3: [(2, 2, n - 4), (1, 2, n - 3), (2, 1, n - 3), (1, 1, n - 2), (n - 2, 1, 1),
                        (0, 2, n - 2), (2, 0, n - 2), (n - 3, 1, 2), (n // 3, n // 3, n - 2 * (n // 3)),
                        (3, 2, n - 5), (2, n - 5, 3)],
                    4: [(1, 1, 1, n - 3), (2, 1, 1, n - 4), (1, 1, 2, n - 4), (0, 2, 1, n - 3),
                        (n // 4, n // 4, n // 4, n - 3 * (n // 4)), (2, 2, 1, n - 5), (1, 2, n - 4, 1),
                        (3, 1, 2, n - 6), (2, 2, 3, n - 7)],
                    5: [(1, 1, 1, 1, n - 4), (n - 4, 1, 1, 1, 1), (1, 1, 2, 2, n - 6), (2, 1, 1, n - 5, 1),
                        (0, 1, 0, 1, n - 2), (0, 2, 1, 1, n - 4), (2, 2, 2, 1, n - 7)],
                    6: [(1, 1, 1, 1, 1, n - 5), (2, 1, 1, 1, 1, n - 6), (0, 1, 0, 2, 0, n - 3),
                        (1, 1, 2, 1, 1, n - 6)]}[k]
            for p in pats:
                if min(p) >= 0 and sum(p) == n and p not in out:
                    out.append(p)
    return out


def spread(items, k):
    items = list(items)
    if len(items) <= k:
        return items
    if k == 1:
        return [items[len(items) // 3]]
    idx = sorted({int(round(i * (len(items) - 1) / float(k - 1))) for i in range(k)})
    return [items[i] for i in idx]


class Ref(object):
    """The state graph of one supercell."""

    def __init__(self, latname, H):
        self.lat = geom.ZOO[latname] if isinstance(latname, str) else latname
        self.H = H
        diag, L = api.snf(H)
        self.cell = geom.Cell(self.lat, H, L, diag)
        self.trans = self.cell.translations()
        self._gens = {}

    def gens(self, arrows):
        if arrows not in self._gens:
            self._gens[arrows] = geom.cell_generators(self.cell, arrows)
        return self._gens[arrows]

    def graph(self, plain, arrowed):
        arrows = sum(arrowed) > 0
        comp, norb, tr = geom.orbits(self.gens(arrows), geom.colorings(plain, arrowed))
        return comp, norb, tr

    def aperiodic_orbits(self, comp):
        done = {}
        for w, o in comp.items():
            if o not in done:
                done[o] = geom.aperiodic(self.trans, w)
        return {o for o, a in done.items() if a}


def check_enum(st, ref, concs, aconcs, supers, wanted=None, graph=None):
    """Full enumeration of one composition, compared with the orbits of the graph."""
    arrowed = [int(c * a + 1e-9) for c, a in zip(concs, aconcs)]
    plain = [c - d for c, d in zip(concs, arrowed)]
    comp, norb, tr = graph if graph is not None else ref.graph(plain, arrowed)
    want = set(range(norb)) if supers else ref.aperiodic_orbits(comp)
    out = api.enum(ref.lat, ref.H, concs, aconcs, norb if wanted is None else wanted, supers)
    st.states += len(comp)
    st.transitions += tr
    st.traces += 1
    st.outcome((norb, len(want)))
    what = "%s H=%s concentration %s displaced %s superperiodic %s" % (
        ref.lat.name, api.six(ref.H), list(concs), list(aconcs), "kept" if supers else "excluded")
    seen = {}
    for w in out:
        require(w in comp, "%s: %s is not a decoration with the requested composition" % (what, w))
        o = comp[w]
        require(o not in seen, "%s: %s and %s are listed but are equivalent"
                % (what, seen.get(o), w))
        seen[o] = w
        require(o in want, "%s: %s has a smaller period than the cell" % (what, w))
    miss = want - set(seen)
    if miss:
        ex = [w for w, o in comp.items() if o in miss][:2]
        require(False, "%s: %d of %d classes missing, e.g. %s" % (what, len(miss), len(want), ex))
    if st.sample is None and len(want) > 1:
        st.sample = "%s: %d decorations, %d classes, %d listed" % (what, len(comp), len(want), len(out))
    return len(out)
