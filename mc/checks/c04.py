"""C04: the predicted number of structures equals the exact number of orbits."""
import os
from fractions import Fraction as F
from itertools import permutations
from .. import api, files, geom, perms
from ..common import require
from ..enumcheck import Ref, conc_list, spread

BOUNDS = {"quick": "every subgroup of S3, S4, S5 (with every composition), subgroups of S3 x cube group with "
                   "displacements; supercells of 24 parents up to 16 sites and 5 species; "
                   "the command's own count tables (polya.out) of 16 parents, up to 4 sites per cell, unrestricted and restricted ranges, "
                   "displaced fractions of 0.25 to 1",
          "thorough": "adds every subgroup of S6, and supercells up to 36 sites"}
ASSUMPTIONS = ["the group file's operations are those of the supercell (C08)"]


def arrow_ops():
    """the 48 axis permutations of the half-axes"""
    out = []
    for p in permutations(range(3)):
        for s in range(8):
            R = [[0] * 3 for _ in range(3)]
            for i in range(3):
                R[i][p[i]] = 1 if s >> i & 1 else -1
            out.append(geom.arrow_perm(R))
    return out


def cases(tier):
    out = []
    for n in (1, 2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        parts = {1: 1, 2: 1, 3: 1, 4: 2, 5: 16, 6: 120}[n]
        for i in range(parts):
            out.append({"kind": "sub", "n": n, "part": i, "parts": parts})
    for i in range(48):
        out.append({"kind": "arrow", "n": 3, "op": i})
    for name, lat in sorted(geom.ZOO.items()):
        nb = len(lat.basis)
        for n in range(1, 7 if tier == "quick" else 11):
            if n * nb > (8 if tier == "quick" else 12):
                continue
            hs = spread([h for h, _ in geom.reduced_hnfs(lat, n)], 3 if tier == "quick" else 12)
            for h in hs:
                out.append({"kind": "cell", "lat": name, "H": h})
    big = [("fcc", 12), ("bcc", 16), ("sc", 16), ("hex", 12), ("tri", 16), ("diamond", 8), ("perov3", 5),
           ("hcp", 7), ("tet4", 4)]
    if tier == "thorough":
        big += [("fcc", 16), ("sc", 24), ("tri", 36), ("sc", 32), ("diamond", 12), ("bcc", 27)]
    tables = [("sc", 4), ("fcc", 4), ("bcc", 3), ("tet", 3), ("ortho", 3), ("hex", 4), ("mono", 3), ("tri", 3), ("hcp", 2), ("diamond", 2),
              ("sc_h2", 2), ("perov3", 1), ("tet4", 1), ("fcc_near", 3), ("dia_turned", 2), ("bct", 3)]
    for name, top in tables:
        top += tier == "thorough"
        out.append({"kind": "table", "lat": name, "top": top, "k": 2})
        out.append({"kind": "table", "lat": name, "top": min(top, 3), "k": 3})
        out.append({"kind": "table", "lat": name, "top": top, "k": 2, "rows": [[1, 2, 4], [0, 3, 4]]})
        out.append({"kind": "table", "lat": name, "top": min(top, 3), "k": 3, "rows": [[1, 3, 3], [0, 1, 2], [0, 2, 3]]})
        if geom.ZOO[name].has_cubic_axes():
            for fr in ((.5, 0), (0, .5), (1.0, 0), (0, 1.0), (.5, .5), (1.0, 1.0), (.25, 0), (0, .34)):
                out.append({"kind": "table", "lat": name, "top": top, "k": 2, "rows": [[0, 1, 1], [0, 1, 1]], "fr": fr})
            for fr in ((0, .5, 0), (0, 0, 1.0), (.5, .5, .5)):
                out.append({"kind": "table", "lat": name, "top": min(top, 3), "k": 3, "rows": [[0, 1, 1]] * 3, "fr": fr})
    for name, n in big:
        hs = [h for h, _ in geom.reduced_hnfs(geom.ZOO[name], n)] if n <= 16 else geom.all_hnfs(n)
        for h in spread(hs, 2):
            out.append({"kind": "big", "lat": name, "H": h})
    return out


def explore(case, st):
    if case["kind"] == "sub":
        return explore_sub(case, st)
    if case["kind"] == "arrow":
        return explore_arrow(case, st)
    if case["kind"] == "table":
        return explore_table(case, st)
    return explore_cell(case, st)


def explore_sub(case, st):
    from phenum.polyaburnside import polya
    n = case["n"]
    subs = sorted(perms.subgroups(n), key=lambda g: (len(g), sorted(g)))
    mine = subs[case["part"]::case["parts"]]
    for g in mine:
        gl = [(p, None) for p in sorted(g)]
        for k in range(1, min(n, 4) + 1):
            for c in geom.compositions(n, k):
                if n >= 6 and list(c) != sorted(c):
                    continue
                # explicit state graph: the orbits of the words under the group
                if geom.multinomial(c) * len(g) <= 20000:
                    ws = [tuple((-1, x) for x in w) for w in geom.words(c)]
                    comp, norb, tr = geom.orbits(gl, ws)
                    st.states += len(comp)
                    st.transitions += tr
                else:
                    norb = geom.burnside(gl, c)
                got = polya(list(c), [[list(p), [0]] for p, _ in gl])
                st.traces += 1
                st.outcome((norb,))
                require(got == norb, "group %s, concentration %s: predicted %s, there are %d orbits"
                        % (sorted(g)[:6], list(c), got, norb))
    st.sample = "%d subgroups of S%d" % (len(mine), n)


def explore_arrow(case, st):
    """<(p, arrow op)> for every p in S3: site and arrow permutation act together"""
    from phenum.polyaburnside import polya
    aops = arrow_ops()
    a = aops[case["op"]]
    for p in permutations(range(3)):
        gens = [(tuple(p), a)]
        full = group_of(gens)
        for second in (None, ((1, 2, 0), aops[(case["op"] * 7 + 5) % 48])):
            if second:
                full = group_of(gens + [second])
                if len(full) > 150:
                    continue
            for plain, arrowed in (((2,), (1,)), ((1,), (2,)), ((), (3,)), ((1, 1), (1,)),
                                   ((1,), (1, 1)), ((), (1, 2)), ((), (1, 1, 1)), ((), (2, 1))):
                # arrowed kinds carry a species of their own
                n = len(plain)
                comp, norb, tr = geom.orbits(full, decorate(plain, arrowed))
                st.states += len(comp)
                st.transitions += tr
                got = polya(list(plain) + list(arrowed), [[list(s), list(b)] for s, b in full],
                            arrowings=len(arrowed))
                st.traces += 1
                st.outcome(norb)
                require(got == norb, "group generated by %s, %s undisplaced, %s displaced: predicted %s, "
                        "there are %d orbits" % (gens + [second], plain, arrowed, got, norb))
    st.sample = {"arrow operation": a}


def decorate(plain, arrowed):
    from itertools import product
    for w in geom.words(tuple(plain) + tuple(arrowed)):
        pos = [i for i, x in enumerate(w) if x > len(plain)]
        for arr in product(range(6), repeat=len(pos)):
            out = [(-1, x) for x in w]
            for q, z in zip(pos, arr):
                out[q] = (z, w[q])
            yield tuple(out)


def group_of(gens):
    def mul(x, y):
        # act(x, act(y, w)): sites through y[x[i]], arrows x after y
        return (tuple(y[0][i] for i in x[0]), tuple(x[1][j] for j in y[1]))
    n = len(gens[0][0])
    ident = (tuple(range(n)), tuple(range(6)))
    seen = {ident}
    fr = [ident]
    while fr:
        nf = []
        for x in fr:
            for g in gens:
                y = mul(g, x)
                if y not in seen:
                    seen.add(y)
                    nf.append(y)
        fr = nf
    return sorted(seen)


def explore_table(case, st):
    lat, k = geom.ZOO[case["lat"]], case["k"]
    nb = len(lat.basis)
    rows, fr = case.get("rows"), case.get("fr") or [0] * k
    for f in os.listdir("."):
        os.remove(f)
    files.write_lattice_in("lattice.in", lat, [1, case["top"]], k, rows, case.get("fr"))
    files.cli_enum(["-polya"])
    require(sorted(os.listdir(".")) == sorted(["lattice.in"] + ["polya.out.%d" % n for n in range(1, case["top"] + 1)]),
            "%s: files %s" % (case, sorted(os.listdir("."))))
    for n in range(1, case["top"] + 1):
        text = open("polya.out.%d" % n).read()
        ls = text.strip("\n").split("\n")
        head = ls[0].split()
        cs = [tuple(map(int, x.split(":"))) for x in head[2:-1]]
        allowed = [c for c in geom.compositions(n * nb, k) if rows is None or
                   all(F(r[0], r[2]) * n * nb <= x <= F(r[1], r[2]) * n * nb for r, x in zip(rows, c))]
        what = "%s, index %d:\n%s" % (case, n, text[:1500])
        require(head[:2] == ["#", "HNF"] and head[-1] == "Total" and sorted(cs) == sorted(allowed), "%s\nconcentrations should be %s" % (what, allowed))
        body = [[int(x) for x in l.split()] for l in ls[1:] if not l.startswith("#")]
        require(len(ls) == len(body) + 2 and body[-1][:6] == [0] * 6, "%s\nno line of totals" % what)
        classes = geom.reduced_hnfs(lat, n)
        require(len(body) - 1 == len(classes), "%s\n%d supercells, there are %d" % (what, len(body) - 1, len(classes)))
        sums = [0] * len(cs)
        for r in body[:-1]:
            H = ((r[0], 0, 0), (r[1], r[2], 0), (r[3], r[4], r[5]))
            ref = Ref(lat, H)
            og = sorted(ref.cell.group(sum(fr) > 0))
            require(len(r) == 6 + len(cs) + 1, "%s\nrow %s" % (what, r))
            for i, c in enumerate(cs):
                ar = [int(x * y + 1e-9) for x, y in zip(c, fr)]
                pl = [x - y for x, y in zip(c, ar)]
                want = geom.burnside(og, [x for x in pl if x], [x for x in ar if x])
                st.states += 1
                st.transitions += len(og)
                st.outcome(want)
                require(r[6 + i] == want, "%s\nsupercell %s concentration %s: %d, the exact count is %d" % (what, r[:6], c, r[6 + i], want))
                sums[i] += want
            require(r[-1] == sum(r[6:-1]), "%s\nsupercell %s: the total is not the sum" % (what, r[:6]))
        require(body[-1][6:] == sums + [sum(sums)], "%s\nthe totals should be %s" % (what, sums + [sum(sums)]))
        st.traces += 1
    st.sample = text.split("\n")[:2]


def explore_cell(case, st):
    ref = Ref(case["lat"], tuple(map(tuple, case["H"])))
    N = ref.cell.nsites
    big = case["kind"] == "big"
    jobs = []
    if big:
        cl = [(N // 2, N - N // 2), (N - 2, 2), (N - 2, 1, 1), (0, 3, N - 3), (N // 3, N // 3, N - 2 * (N // 3)),
              (N // 4, N // 4, N // 4, N - 3 * (N // 4)), (2, 2, 2, 2, N - 8) if N >= 9 else (1, N - 1)]
    else:
        cl = [c for c in conc_list(N, "quick") if len(c) < 4 or max(c) < N]
    for c in cl:
        jobs.append((c, [0] * len(c)))
    if ref.lat.has_cubic_axes():
        for c in cl:
            if len(c) == 2 or big and len(c) == 3:
                for a in ([1.0] + [0] * (len(c) - 1), [0] * (len(c) - 1) + [1.0], [.5] * len(c), [1.0] * len(c)):
                    if sum(int(x * y) for x, y in zip(c, a)) and (not big or sum(c) <= 12):
                        jobs.append((c, a))
    groups = {}
    for c, a in jobs:
        arrows = sum(a) != 0
        if arrows not in groups:
            groups[arrows] = (api.group(ref.lat, ref.H, arrows), sorted(ref.cell.group(arrows)))
        ig, og = groups[arrows]
        ar = [int(x * y) for x, y in zip(c, a)]
        pl = [x - y for x, y in zip(c, ar)]
        want = geom.burnside(og, [x for x in pl if x], [x for x in ar if x])
        got = api.polya_count(ref.lat, ref.H, c, a, ig)
        st.transitions += len(og)
        st.states += 1
        st.traces += 1
        st.outcome(want)
        require(got == want, "%s H=%s concentration %s displaced %s: predicted %s, the exact count is %d"
                % (ref.lat.name, api.six(ref.H), list(c), list(a), got, want))
        size = geom.multinomial(pl + ar) * 6 ** sum(ar)
        if size <= 800:
            comp, norb, tr = ref.graph(pl, ar)
            st.states += len(comp)
            st.transitions += tr
            require(norb == want, "oracle disagreement (internal): %d orbits, %d counted" % (norb, want))
    st.sample = "%d counts for %s" % (len(jobs), case)
