"""C24: the group generated from permutations is exactly the closure."""
from itertools import combinations, permutations, product
from .. import geom, perms
from ..common import require
from ..enumcheck import Ref, spread

BOUNDS = {"quick": "every set of up to 3 generators in S2, S3, S4 and every pair in S5 (7140), alone and with direction permutations; "
                   "translations combined with every choice of up to 40 sets of coset representatives for supercells of 56 parents",
          "thorough": "every triple in S4 with direction permutations, 20000 triples in S5"}
ASSUMPTIONS = []
CUBE = sorted({geom.arrow_perm([[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)])
               for p in permutations(range(3)) for s in product((1, -1), repeat=3)})


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4):
        for r in (1, 2, 3):
            sets = list(combinations(range(len(list(permutations(range(n))))), r))
            if not sets:
                continue
            for i in range(0, len(sets), 250):
                out.append({"kind": "gen", "n": n, "sets": sets[i:i + 250], "arrows": False})
                out.append({"kind": "gen", "n": n, "sets": (spread(sets[i:i + 250], 40) if q else sets[i:i + 250]), "arrows": True})
    pairs = list(combinations(range(120), 2))
    trip = spread(list(combinations(range(120), 3)), 400 if q else 20000)
    for s in (pairs, trip):
        for i in range(0, len(s), 120):
            out.append({"kind": "gen", "n": 5, "sets": s[i:i + 120], "arrows": False})
    for name in sorted(geom.ZOO):
        out.append({"kind": "cell", "lat": name, "top": 6 if q else 12})
    return out


def pair_closure(gens):
    def mul(a, b):
        return (tuple(a[0][b[0][i]] for i in range(len(a[0]))), tuple(a[1][b[1][i]] for i in range(len(a[1]))))
    seen = set(gens)
    fr = list(seen)
    while fr:
        nf = []
        for x in fr:
            for g in gens:
                y = mul(x, g)
                if y not in seen:
                    seen.add(y)
                    nf.append(y)
        fr = nf
    return seen


def explore(case, st):
    if case["kind"] == "gen":
        gens(case, st)
    else:
        cells(case, st)


def gens(case, st):
    from phenum.grouptheory import a_group_gen
    from phenum.polyaburnside import group
    n = case["n"]
    S = list(permutations(range(n)))
    ident = list(range(n))
    for sel in case["sets"]:
        g = [S[i] for i in sel]
        if case["arrows"]:
            ap = [CUBE[(7 * i + 5 * k + 3) % 48] for k, i in enumerate(sel)]
            pg = list(zip(g, ap))
            want = pair_closure(pg)
        else:
            pg = [(p, (0,)) for p in g]
            cl = perms.closure(g, n)
            want = {(p, (0,)) for p in cl}
            if n > 1:
                for shift in (0, 1):
                    got = [tuple(int(x) for x in p) for p in group([[x + shift for x in p] for p in g])]
                    st.traces += 1
                    require(len(set(got)) == len(got) and set(got) == set(cl),
                            "generators %s: %d operations, %d different, %d in the closure" % (g, len(got), len(set(got)), len(cl)))
        got = [(tuple(int(x) for x in a), tuple(int(x) for x in b))
               for a, b in a_group_gen([ident], [[list(a), list(b)] for a, b in pg])]
        st.traces += 1
        st.states += len(want)
        st.transitions += len(want) * len(pg)
        st.outcome((n, len(want)))
        require(len(set(got)) == len(got), "generators %s: an operation is listed twice" % (pg,))
        require(set(got) == want, "generators %s: %d operations instead of %d" % (pg, len(got), len(want)))
    st.sample = "generators %s: %d operations" % (pg, len(want))


def cells(case, st):
    from phenum.grouptheory import a_group
    lat = geom.ZOO[case["lat"]]
    nb = len(lat.basis)
    arrows = lat.has_cubic_axes()
    for n in range(1, case["top"] // nb + 1):
        for H in spread([h for h, _ in geom.reduced_hnfs(lat, n)], 3):
            ref = Ref(lat, H)
            full = sorted(ref.cell.group(arrows), key=str)
            trans = [tuple(t) for t in ref.trans]
            # the cosets of the translations
            cosets = {}
            for p, a in full:
                key = (min(tuple(p[i] for i in t) for t in trans), a)
                cosets.setdefault(key, []).append((p, a))
            for pick in range(min(n, 5)):
                rots = [c[pick % len(c)] for _, c in sorted(cosets.items(), key=str)]
                got = a_group([list(t) for t in trans], [[list(p), list(a) if a else [0]] for p, a in rots])
                got = [(tuple(int(x) for x in p), tuple(int(x) for x in a) if arrows else None) for p, a in got]
                st.traces += 1
                st.states += len(full)
                st.transitions += len(got)
                require(len(set(got)) == len(got), "%s: an operation is listed twice" % lat.name)
                require(set(got) == set(full), "%s H=%s: %d operations, not %d" % (lat.name, H, len(got), len(full)))
                st.outcome((lat.name, n, len(full)))
    st.sample = "%s: %d operations of H=%s" % (lat.name, len(full), H)
