"""C12: a random subset has exactly the requested number of distinct, inequivalent structures."""
import math
from .. import api, choice, geom
from ..common import require
from ..enumcheck import Ref, spread

BOUNDS = {"quick": "every parent, up to 7 sites (5 with displacements), requests from 1 to two more than "
                   "available, every subset the shuffle can select (up to 60 per request, 240 with the replacement draws; all orders up to 3 structures) and every replacement draw; "
                   "acceptance rates with every outcome of the first 5 draws; cells of 9 to 12 sites and spaces of up to 90000 decorations "
                   "(11 sites with displacements) with requests of 1, 3, 100, 101 and around what is available",
          "thorough": "up to 8 sites, up to 600 subsets per request, first 9 acceptance draws, more cells of 9 to 12 sites"}
ASSUMPTIONS = ["requests are at least 1"]


def cases(tier):
    q = tier == "quick"
    out = []
    cap = 60 if q else 600
    ad = 5 if q else 9
    for name, lat in sorted(geom.ZOO.items()):
        nb = len(lat.basis)
        for n in range(1, (7 if q else 8) // nb + 1):
            N = n * nb
            for h in spread([h for h, _ in geom.reduced_hnfs(lat, n)], 2 if q else 8):
                cl = [c for k in (2, 3) for c in geom.compositions(N, k)
                      if geom.multinomial(c) <= (60 if q else 250) and (k == 2 or min(c) > 0 or N < 4)]
                cl = spread(cl, 5 if q else 14)
                for s in (True, False):
                    out.append({"lat": name, "H": h, "supers": s, "jobs": [[c, [0] * len(c)] for c in cl], "cap": cap, "ad": ad})
        if not lat.has_cubic_axes():
            continue
        for n in range(1, 5 // nb + 1):
            N = n * nb
            for h in spread([h for h, _ in geom.reduced_hnfs(lat, n)], 2 if q else 6):
                jobs = []
                for c, a in (((N,), (1.0,)), ((N,), (.5,)), ((1, N - 1), (1.0, 0)), ((N - 1, 1), (0, 1.0)),
                             ((N // 2, N - N // 2), (.5, 0)), ((N - 1, 1), (.5, 1.0)), ((1, 1, N - 2), (0, 1.0, 0))):
                    ar = [int(x * y) for x, y in zip(c, a)]
                    if sum(ar) == 0 or min(c) < 0:
                        continue
                    size = geom.multinomial([x - y for x, y in zip(c, ar)] + ar) * 6 ** sum(ar)
                    if size <= (220 if q else 1300):
                        jobs.append([c, a])
                for s in (True, False):
                    out.append({"lat": name, "H": h, "supers": s, "jobs": jobs, "cap": cap, "ad": ad})
    # spaces just below the size at which the package starts guessing
    for name, N, cl in (("tri", 12, [(5, 5, 2), (2, 3, 7), (1, 1, 2, 8)]), ("fcc", 12, [(6, 6), (4, 3, 5)]), ("hex", 11, [(5, 6), (5, 3, 3)]),
                        ("sc", 10, [(3, 3, 2, 2), (4, 6), (2, 2, 6), (1, 1, 1, 7)]), ("bcc", 9, [(1, 2, 3, 3), (4, 5)]), ("hcp", 10, [(3, 3, 4)]),
                        ("diamond", 8, [(2, 2, 2, 2), (3, 5)]), ("tet4", 12, [(6, 6), (1, 11)]), ("perov3", 12, [(4, 2, 6), (5, 7)]),
                        ("ortho", 16, [(8, 8), (3, 13)]), ("mono", 14, [(7, 7), (2, 12)])):
        lat = geom.ZOO[name]
        for h in spread(geom.all_hnfs(N // len(lat.basis)), 2 if q else 8):
            for c in cl:
                if geom.multinomial(c) <= (90000 if not q or name in ("tri", "sc") else 40000):
                    out.append({"lat": name, "H": h, "supers": True, "jobs": [[c, [0] * len(c)]], "cap": 2, "ad": 2, "big": 1})
            out.append({"lat": name, "H": h, "supers": False, "jobs": [[c, [0] * len(c)] for c in cl if geom.multinomial(c) <= 6000],
                        "cap": 2, "ad": 2, "big": 1})
    for name, N, jobs in (("sc", 11, [((11,), (.1,)), ((9, 2), (0, 1.)), ((10, 1), (0, 1.)), ((9, 1, 1), (0, 1., 0))]),
                          ("fcc", 8, [((7, 1), (0, 1.)), ((8,), (.25,)), ((4, 4), (0, .25))]),
                          ("tet", 10, [((5, 5), (.2, 0)), ((8, 2), (0, .5))]), ("perov3", 9, [((6, 3), (0, .34)), ((9,), (.2,))]),
                          ("sc_h2", 10, [((9, 1), (0, 1.)), ((8, 2), (0, 1.))]), ("ortho", 6, [((6,), (.5,)), ((4, 2), (0, 1.))])):
        lat = geom.ZOO[name]
        for h in spread(geom.all_hnfs(N // len(lat.basis)), 2 if q else 8):
            for s in (True, False):
                out.append({"lat": name, "H": h, "supers": s, "jobs": [list(j) for j in jobs], "cap": 2, "ad": 2, "big": 1})
    out = [c for c in out if c["jobs"]]
    out.sort(key=lambda c: -c["H"][0][0] * c["H"][1][1] * c["H"][2][2])
    return out


def explore(case, st):
    ref = Ref(case["lat"], tuple(map(tuple, case["H"])))
    for c, a in case["jobs"]:
        job(st, ref, tuple(c), a, case["supers"], case["cap"], case["ad"], case.get("big"))


def job(st, ref, c, a, supers, cap, ad, big=None):
    ar = [int(x * y) for x, y in zip(c, a)]
    pl = [x - y for x, y in zip(c, ar)]
    comp, norb, tr = ref.graph(pl, ar)
    want = set(range(norb)) if supers else ref.aperiodic_orbits(comp)
    st.transitions += tr
    st.states += len(comp)
    what0 = "%s H=%s concentration %s displaced %s superperiodic %s" % (
        ref.lat.name, api.six(ref.H), list(c), list(a), "kept" if supers else "excluded")

    def judge(res, n, ch, exact=True):
        what = "%s, %d requested, draws %s" % (what0, n, ch)
        seen = {}
        for w in res:
            require(w in comp, "%s: %s is not a decoration with the requested composition" % (what, w))
            o = comp[w]
            require(o not in seen, "%s: %s and %s are equivalent" % (what, seen.get(o), w))
            require(o in want, "%s: %s has a smaller period than the cell" % (what, w))
            seen[o] = w
        if exact:
            require(len(res) == min(n, len(want)), "%s: %d returned, %d exist" % (what, len(res), len(want)))
        else:
            require(len(res) <= n, "%s: %d returned" % (what, len(res)))
        st.traces += 1
        st.outcome(tuple(sorted(seen)))

    av = len(want)
    reqs = sorted({1, 3, av // 2, av - 2, av - 1, av, av + 1, norb - 1, norb, norb + 2} - {0})
    if ar and sum(ar):
        # displacements make the tree deep and the runs slow
        reqs = sorted({1, av - 1, av, norb - 1, norb, norb + 2} - {0})
        cap = max(2, min(cap, cap * 12 // len(comp)))
    if big:
        reqs = sorted({1, 3, 100, 101, av - 1, av, av + 1, norb})
        if len(comp) > 2000:
            reqs = sorted({1, 100, 101, av - 1, norb})
        cap = 1
    for n in reqs:
        if n < 1:
            continue
        if n < norb and math.comb(norb, min(n, norb)) > cap:
            # a few fixed completions only for large selections
            k, depth, lim = None, 0, 1
        else:
            k, depth, lim = (None if norb <= 3 else n), (norb + 2 if norb <= 3 else 2), 4 * cap
        r, d, done = choice.explore(
            lambda: api.enum(ref.lat, ref.H, c, a, n, supers), lambda res, ch: judge(res, n, ch), depth, lim, k=k)
        st.states += r
        st.transitions += d
    # acceptance rates thin the list out, they never spoil it
    if norb > 1 and len(comp) < 5000:
        for n, acc in ((norb, .5), (max(1, norb - 1), .5)):
            r, d, done = choice.explore(
                lambda: api.enum(ref.lat, ref.H, c, a, n, supers, acc),
                lambda res, ch: judge(res, n, ch, exact=False), ad if len(comp) < 20 else 3, 8 * ad - 20, k=1)
            st.states += r
            st.transitions += d
    st.sample = "%s: %d classes, %d eligible, requests %s" % (what0, norb, av, reqs)
