"""C13: structures drawn by guessing are distinct, complete and the search ends."""
from .. import api, choice, geom
from ..common import require
from ..enumcheck import Ref, spread

BOUNDS = {"quick": "displaced: 12 sites of 9 parents (12x1, 6x2, 4x3), 8 compositions, every request from 1 to 3 more than available "
                   "(up to 100), every outcome of the first 2 draws; large: 18-21 sites of 5 parents, 1 to 8 structures, both ends and "
                   "the middle of the first 2 draws",
          "thorough": "more supercells, first 3 draws, up to 30 structures of large spaces"}
ASSUMPTIONS = ["requests are at least 1 and at most 100 (the bound below which the package guesses)"]
TIMEOUT = 250
SMALL = ["sc", "fcc", "bcc", "tet", "ortho", "sc_h2", "perov3", "perov4", "diamond", "bct"]
LARGE = ["sc", "fcc", "tri", "hcp", "hex", "bcc", "perov3", "mono", "diamond"]


def cases(tier):
    q = tier == "quick"
    out = []
    for name in SMALL:
        lat = geom.ZOO.get(name)
        if lat is None or not lat.has_cubic_axes():
            continue
        nb = len(lat.basis)
        if 12 % nb:
            continue
        hs = [h for h, _ in geom.reduced_hnfs(lat, 12 // nb)]
        for H in spread(hs, 4 if q else 12):
            for c, a in (((11, 1), (0, 1.0)), ((10, 2), (0, .5)), ((10, 1, 1), (0, 1.0, 0)), ((1, 11), (1.0, 0)), ((12,), (.09,)),
                         ((10, 1, 1), (0, 1., 1.)), ((10, 2), (0, 1.0)), ((12,), (.17,))):
                for s in (True, False):
                    out.append({"kind": "small", "lat": name, "H": H, "c": c, "a": a, "supers": s, "depth": 2 if q else 3,
                                "runs": 9 if q else 60})
            out.append({"kind": "big", "lat": name, "H": H, "c": (12,), "a": (1.0,), "reqs": [1, 5], "depth": 2, "dom": 3})
    for name in LARGE:
        lat = geom.ZOO[name]
        nb = len(lat.basis)
        for n, cs in ((20, [(10, 10), (8, 6, 6), (1, 1, 1, 1, 16), (0, 9, 11)]), (18, [(6, 6, 6), (1, 1, 8, 8)]),
                      (21, [(8, 13), (13, 8), (1, 2, 3, 15)]), (12, [(2, 3, 3, 4), (3, 4, 5), (1, 1, 2, 2, 6)]), (24, [(2, 2, 20), (6, 18)])):
            if n % nb:
                continue
            for H in spread(geom.all_hnfs(n // nb), 3 if q else 12):
                for c in cs:
                    out.append({"kind": "big", "lat": name, "H": H, "c": c, "a": [0] * len(c), "reqs": [1, 2, 8] if q else [1, 2, 9, 30, 100],
                                "depth": 2 if q else 3, "dom": 3})
    return out


def explore(case, st):
    globals()[case["kind"]](case, st)


def counts(c, a):
    ar = [int(x * y) for x, y in zip(c, a)]
    return [x - y for x, y in zip(c, ar)], ar


def small(case, st):
    ref = Ref(case["lat"], tuple(map(tuple, case["H"])))
    c, a, supers = tuple(case["c"]), tuple(case["a"]), case["supers"]
    pl, ar = counts(c, a)
    comp, norb, tr = ref.graph(pl, ar)
    want = set(range(norb)) if supers else ref.aperiodic_orbits(comp)
    av = len(want)
    st.transitions += tr
    st.states += len(comp)
    what0 = "%s H=%s concentration %s displaced %s superperiodic %s" % (
        ref.lat.name, api.six(ref.H), list(c), list(a), "kept" if supers else "excluded")
    top = [av - 1, av, av + 3] if av <= 40 else [30]
    for n in sorted({x for x in [1, 2, av // 2] + top if 1 <= x <= (100 if len(comp) < 500 else 30)}):

        def visit(res, ch):
            what = "%s, %d requested, draws %s" % (what0, n, ch)
            seen = {}
            for w in res:
                require(w in comp, "%s: %s is not a decoration with the requested composition" % (what, w))
                o = comp[w]
                require(o not in seen, "%s: %s and %s are equivalent" % (what, seen.get(o), w))
                require(o in want, "%s: %s has a smaller period than the cell" % (what, w))
                seen[o] = w
            require(len(res) == min(n, av), "%s: %d returned, %d exist" % (what, len(res), av))
            st.traces += 1
            st.outcome(tuple(sorted(seen)))
        r, d, _ = choice.explore(lambda: api.enum(ref.lat, ref.H, c, a, n, supers), visit, case["depth"], case["runs"], maxdom=3)
        st.states += r
        st.transitions += d
    st.sample = "%s: %d classes, %d eligible" % (what0, norb, av)


def big(case, st):
    ref = Ref(case["lat"], tuple(map(tuple, case["H"])))
    c, a = tuple(case["c"]), tuple(case["a"])
    pl, ar = counts(c, a)
    arrows = sum(ar) > 0
    G = ref.cell.group(arrows)
    st.states += len(G)
    ranked = sorted(x for x in c if x)
    ranked += [0] * (len(c) - len(ranked))
    for supers in (True, False):
        what0 = "%s H=%s concentration %s displaced %s superperiodic %s" % (
            ref.lat.name, api.six(ref.H), list(c), list(a), "kept" if supers else "excluded")
        for n in case["reqs"]:
            def visit(res, ch):
                what = "%s, %d requested, draws %s" % (what0, n, ch)
                require(len(res) == n, "%s: %d returned" % (what, len(res)))
                seen = {}
                swapped = not sum(ar) and ranked != list(c) and len(res) > 0 and all(
                    [sum(1 for s in w if s[1] == i + 1 and s[0] < 0) for i in range(len(c))] == ranked for w in res)
                if swapped:
                    st.known("no-displacements:" + ",".join(map(str, c)),
                             "%s: the species are exchanged: %s" % (what, res[0]))
                for w in res:
                    p = [sum(1 for s in w if s[1] == i + 1 and s[0] < 0) for i in range(len(c))]
                    q = [sum(1 for s in w if s[1] == i + 1 and 0 <= s[0] < 6) for i in range(len(c))]
                    require((p == pl or swapped) and q == ar and len(w) == sum(c), "%s: composition of %s" % (what, w))
                    k = geom.canon(G, w)
                    require(k not in seen, "%s: %s and %s are equivalent" % (what, seen.get(k), w))
                    seen[k] = w
                    if not supers:
                        require(geom.aperiodic(ref.trans, w), "%s: %s has a smaller period than the cell" % (what, w))
                st.traces += 1
                st.outcome(tuple(sorted(seen)))
            r, d, _ = choice.explore(lambda: api.enum(ref.lat, ref.H, c, a, n, supers), visit, case["depth"], 12,
                                     maxdom=case["dom"])
            st.states += r
            st.transitions += d
            if n <= 2:
                for script in scripts(ref, G, c, ar, supers, n, 24 if case["depth"] == 2 else 200):
                    res = choice.scripted(lambda: api.enum(ref.lat, ref.H, c, a, n, supers), script)
                    visit(res, ["directed"] + script)
                    st.states += 1
                    st.transitions += len(script)
    st.sample = "%s: %d operations" % (what0, len(G))


def scripts(ref, G, c, ar, supers, n, top):
    """Draws that lead straight to what the search has to reject: words of smaller period, and for every operation a
    word followed by its image.  They are legitimate draws whatever the implementation makes of them, so only how
    well they aim depends on the numbering of the words."""
    N = sum(c)
    if sum(ar) == 0:
        cols = sorted(x for x in c if x)
        rank = number
        words = plain_words(cols, N)
    elif len(c) == 1 and ar[0] == N:
        cols = None
        rank = lambda w: [sum(x * 6 ** i for i, x in enumerate(w))]
        words = [[(i * i + i // 3) % 6 for i in range(N)], [(5 * i + i // 2) % 6 for i in range(N)]]
    else:
        return []
    out = []
    if not supers and n == 1:
        for t in ref.trans:
            w = periodic(t, cols, N)
            if w is not None:
                out.append(rank(w))
    if n == 2:
        for i, (p, q) in enumerate(spread(sorted(G, key=lambda g: g[0]), top)):
            w = words[i % len(words)]
            v = [w[j] for j in p]
            if cols is None:
                v = [q[x] for x in v]
            out.append(rank(w) + rank(v))
    return out


def plain_words(cols, N):
    base = [i + 1 for i, x in enumerate(cols) for _ in range(x)]
    return [base, base[::-1], [base[(5 * i + 1) % N] for i in range(N)] if N % 5 else [base[(7 * i + 1) % N] for i in range(N)]]


def periodic(t, cols, N):
    """a word that the translation leaves alone, or None"""
    left, cyc = set(range(N)), []
    while left:
        i = min(left)
        o = []
        while i in left:
            left.remove(i)
            o.append(i)
            i = t[i]
        cyc.append(o)
    L = len(cyc[0])
    if L == 1 or any(len(o) != L for o in cyc):
        return None
    w = [0] * N
    if cols is None:
        for i, o in enumerate(cyc):
            for j in o:
                w[j] = i * i % 6
        return w
    if any(x % L for x in cols):
        return None
    seq = [i + 1 for i, x in enumerate(cols) for _ in range(x // L)]
    for o, x in zip(cyc, seq):
        for j in o:
            w[j] = x
    return w


def number(w):
    """one number per species: the rank of its places among the places not yet taken, rank 0 is 'first places'"""
    import math
    out = []
    for k in range(1, max(w) + 1):
        bits = [1 if x == k else 0 for x in w]
        m, ones, y = len(bits), sum(bits), 0
        for i, b in enumerate(bits):
            if b:
                ones -= 1
            elif ones:
                y += math.comb(m - i - 1, ones - 1)
        if math.comb(m, sum(bits)) > 1:
            out.append(y)
        w = [x for x in w if x != k]
    return out
