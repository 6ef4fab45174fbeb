"""C14: reading and writing are faithful."""
import os
from itertools import product
from .. import api, files, geom
from ..common import require
from ..enumcheck import Ref, spread

BOUNDS = {"quick": "lattice files: 12 parents x 1-4 species x {unrestricted, restricted, restricted with displacements} x 24 layouts; "
                   "lists of up to 6 systems with entries up to 12 digits in 4 layouts; enumeration files of every parent with up to 60 "
                   "structures, every subset of up to 5 structures selected; group files of every parent up to 24 sites, wrapped at 3 widths; the command's own file for 4 supercells of index 100 to 110",
          "thorough": "every parent and 60 structures per file, group files up to 36 sites"}
ASSUMPTIONS = []


def cases(tier):
    q = tier == "quick"
    names = sorted(geom.ZOO)
    out = []
    for name in (spread(names, 12) if q else names):
        for k in (1, 2, 3, 4):
            out.append({"kind": "lattice", "lat": name, "k": k})
    for name in names:
        out.append({"kind": "enumout", "lat": name})
        top = 24 if q else 36
        nb = len(geom.ZOO[name].basis)
        for n in sorted({1, 2, 3, 4, 6, top // nb // 2}):
            if n * nb <= top:
                out.append({"kind": "group", "lat": name, "n": n, "wraps": [0, 20, 7]})
    for name, n in (("tri", 60), ("fcc", 48), ("hcp", 32), ("perov3", 40), ("sc", 100)) + (() if q else (("tri", 250), ("bcc", 128))):
        out.append({"kind": "group", "lat": name, "n": n, "wraps": [0, 60, 50, 30, 20, 7]})
    for k in (1, 2, 3, 4, 5):
        for m in range(1, 7):
            out.append({"kind": "enumin", "k": k, "m": m})
    out += [{"kind": "label", "n": n} for n in range(1, 6)]
    large = [(1, 0, 1, 0, 3, 100), (1, 0, 1, 99, 98, 101), (1, 0, 10, 7, 5, 10), (101, 0, 1, 0, 0, 1), (1, 99, 100, 0, 0, 1),
             (2, 1, 5, 3, 7, 11), (1, 0, 1, 120, 3, 125)]
    for h in large[:4] if q else large + [(1, 0, 2, 77, 101, 128), (4, 3, 6, 1, 2, 7), (3, 2, 9, 5, 4, 9)]:
        out.insert(0, {"kind": "large", "H": h, "c": [1, h[0] * h[2] * h[5] - 1]})
    return out


def clean():
    for f in os.listdir("."):
        os.remove(f)


def explore(case, st):
    clean()
    globals()["do_" + case["kind"]](case, st)
    st.outcome(sorted(case.items()))
    clean()


# ------------------------------------------------------------- lattice files
def layouts():
    for com, blank, pad in product((0, 1, 2), (0, 1), range(4)):
        yield com, blank, pad


def lay(lines, com, blank, pad):
    out = []
    if com:
        out.append("# which cell sizes?")
    if blank:
        out.append("")
    for i, l in enumerate(lines):
        if com == 2:
            out.append(["#---", "# 1 2 3", "  # F", "#T"][i % 4])
        if pad == 1:
            l = "   " + "    ".join(l.split()) + "  "
        elif pad == 2:
            l = "\t" + "\t".join(l.split())
        elif pad == 3:
            l = " " + l
        out.append(l)
        if blank and i % 3 == 0:
            out.append(["", "   ", "\t"][i // 3 % 3])
    return "\n".join(out) + ("\n" if not blank else "\n\n\n")


def do_lattice(case, st):
    from phenum.io_utils import read_lattice
    lat = geom.ZOO[case["lat"]]
    k = case["k"]
    for restr, sizes, bulk in product((0, 1, 2), ([1, 4], [7, 7]), ("bulk", "surface")):
        lines = ["%d %d" % tuple(sizes), bulk]
        lines += [" ".join(repr(x) for x in v) for v in lat.vecs]
        lines += [str(k), str(len(lat.basis))]
        lines += [" ".join(repr(x) for x in v) for v in lat.cart_basis]
        rows = []
        if restr == 0:
            lines.append("F")
        else:
            lines += ["T", "T" if restr == 2 else "F"]
            for i in range(k):
                r = [i, i + 3, 4 + 2 * i] + ([[0.5, 1, 0, .25][i]] if restr == 2 else [])
                rows.append([float(x) for x in r])
                lines.append(" ".join(str(x) for x in r))
        for com, blank, pad in layouts():
            text = lay(lines, com, blank, pad)
            with open("lattice.in", "w") as f:
                f.write(text)
            r = read_lattice("lattice.in")
            st.traces += 1
            st.states += 1
            st.transitions += len(lines)
            want = {"sizes": sizes, "bulk": bulk == "bulk", "nspecies": k, "is_crestricted": restr > 0}
            for key, v in want.items():
                require(list(r[key]) == v if key == "sizes" else r[key] == v,
                        "lattice file\n%s\n%s is read as %r" % (text, key, r[key]))
            require(bool(r["arrows"]) == (restr == 2), "lattice file\n%s\ndisplacements are read as %r" % (text, r["arrows"]))
            for key, v in (("lat_vecs", lat.vecs), ("basis_vecs", lat.cart_basis), ("concs", rows)):
                require([[float(x) for x in y] for y in r[key]] == [[float(x) for x in y] for y in v],
                        "lattice file\n%s\n%s is read as %r" % (text, key, r[key]))
        struct_enum(r, st)
    st.sample = text


def struct_enum(params, st):
    """the input file for enumlib holds the same crystal"""
    from phenum.io_utils import write_struct_enum
    write_struct_enum(params)
    ls = [l for l in open("struct_enum.in").read().split("\n") if l.strip()]
    t = [l.split() for l in ls]
    nb = len(params["basis_vecs"])
    occ = "/".join(str(i) for i in range(params["nspecies"]))
    st.traces += 1
    ok = (t[1][0] == ("bulk" if params["bulk"] else "surface") and
          [[float(x) for x in r] for r in t[2:5]] == params["lat_vecs"] and
          t[5] == [str(params["nspecies"])] and t[6] == [str(nb)] and
          [[float(x) for x in r[:3]] for r in t[7:7 + nb]] == params["basis_vecs"] and
          all(r[3] == occ for r in t[7:7 + nb]) and [int(x) for x in t[7 + nb]] == list(params["sizes"]))
    require(ok, "struct_enum.in\n%s\nis not %s" % ("\n".join(ls), params))


# ------------------------------------------------------------- systems
def do_enumin(case, st):
    from phenum.io_utils import read_enum
    k, m = case["k"], case["m"]
    rows = []
    for i in range(m):
        H = [1 + i, i, 2 + i * i, (7 * i) % 5, 3 * i, 10 ** (i % 4)]
        c = [(i * j + 1) * (12345678901 if (i + j) % 5 == 4 else 1) for j in range(k)]
        rows.append((H, c, (10 ** (2 * i)) + i))
    for com, pad in product((0, 1), (0, 1)):
        with open("enum.in", "w") as f:
            if com:
                f.write("# HNF                           Conc.       Number\n")
            for H, c, n in rows:
                if com and pad:
                    f.write("# next\n")
                if pad:
                    f.write("  {0: <30} {1: <20} {2}  \n".format(" ".join(map(str, H)), "  ".join(map(str, c)), n))
                else:
                    f.write(" ".join(map(str, H + c + [n])) + "\n")
        got = [([int(x) for x in H], [int(x) for x in c], int(n)) for H, c, n in read_enum("enum.in")]
        st.traces += 1
        st.states += m
        st.transitions += m
        require(got == rows, "systems %s are read as %s" % (rows, got))
    st.sample = str(rows[:2])


# ------------------------------------------------------------- enumeration files
def do_enumout(case, st):
    from phenum.io_utils import read_enum_out, write_enum
    lat = geom.ZOO[case["lat"]]
    nb = len(lat.basis)
    for k, sizes, restr, m in ((2, [1, 4], False, 5), (3, [3, 3], True, 60), (4, [2, 11], True, 1)):
        params = {"bulk": k != 3, "sizes": sizes, "lat_vecs": [list(v) for v in lat.vecs], "nspecies": k,
                  "basis_vecs": [list(v) for v in lat.cart_basis], "is_crestricted": restr, "arrows": [], "concs": []}
        write_enum(params, outfile="enum.out")
        rows = []
        for i in range(m):
            n = 1 + i % 11
            hs = geom.all_hnfs(n)
            H = [list(r) for r in list(hs)[(i * 5) % len(list(hs))]]
            diag, L = api.snf(H)
            if i == 3:
                H = [[10, 0, 0], [9, 12, 0], [7, 11, 100]]
                L = [[1, 0, 0], [-123, 1, 0], [4567, -89, 1]]
                diag = [1, 10, 1200]
            N = n * nb
            rows.append({"strN": i + 1, "hnfN": 1 + i % 2, "hnf_degen": 1, "lab_degen": 3, "tot_degen": 7, "sizeN": 1 + i // 2,
                         "n": n, "pgOps": 1 + i % 48, "diag": diag, "HNF": H, "L": L,
                         "labeling": "".join(str((i + j) % k) for j in range(N)),
                         "directions": "".join(str((i * j) % 7) for j in range(N))})
        with open("enum.out", "a") as f:
            for s in rows:
                H = s["HNF"]
                h = [H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2]]
                f.write(" ".join(map(str, [s[x] for x in ("strN", "hnfN", "hnf_degen", "lab_degen", "tot_degen", "sizeN", "n", "pgOps")] +
                                     s["diag"] + h + [x for r in s["L"] for x in r] + [s["labeling"], s["directions"]])) + "\n")
        sels = [None, list(range(1, m + 1))] + [[i] for i in range(1, min(m, 6) + 1)]
        if m <= 5:
            sels += [[i + 1 for i in range(m) if b >> i & 1] for b in range(1, 2 ** m)]
        else:
            sels += [list(range(a, b)) for a in (1, 7, 30) for b in (8, 31, 61) if a < b]
        for sel in sels:
            system, data = read_enum_out({"structures": sel, "input": "enum.out"})
            st.traces += 1
            st.states += len(data)
            st.transitions += 1
            what = "%s %d-nary file of %d structures, selection %s" % (lat.name, k, m, sel)
            for key, v in (("nD", nb), ("k", k)):
                require(int(system[key]) == v, "%s: %s is read as %s" % (what, key, system[key]))
            require(system["bulksurf"].strip() == ("bulk" if k != 3 else "surface"), "%s: %s" % (what, system["bulksurf"]))
            require(0 < float(system["eps"]) <= 1e-5, "%s: tolerance %s" % (what, system["eps"]))
            A = [[float(system["plattice"][j][i]) for j in range(3)] for i in range(3)]
            require(close(A, lat.vecs), "%s: lattice vectors %s" % (what, A))
            require(close(system["dvecs"], lat.cart_basis), "%s: basis %s" % (what, system["dvecs"]))
            want = [s for s in rows if sel is None or s["strN"] in sel]
            require(len(data) == len(want), "%s: %d structures read" % (what, len(data)))
            for d, s in zip(data, want):
                for key in s:
                    v = d[key]
                    if key in ("HNF", "L"):
                        v = [[int(x) for x in r] for r in v]
                    elif key == "diag":
                        v = [int(x) for x in v]
                    require(v == s[key], "%s: structure %d: %s is read as %s, written as %s" % (what, s["strN"], key, v, s[key]))
    st.sample = what


def close(a, b):
    a = [[float(x) for x in r] for r in a]
    return len(a) == len(b) and all(len(r) == len(s) and all(abs(x - y) < 1e-6 for x, y in zip(r, s)) for r, s in zip(a, b))


def do_large(case, st):
    """the command's own enumeration file of a supercell whose numbers fill the columns"""
    from phenum.io_utils import read_enum_out
    lat = geom.ZOO["tri"]
    h, c = case["H"], case["c"]
    files.write_lattice_in("lattice.in", lat, [2, 2], 2)
    with open("enum.in", "w") as f:
        f.write("# HNF Conc. Number\n  %s    %s    1\n" % (" ".join(map(str, h)), " ".join(map(str, c))))
    files.cli_enum(["-enum", "-seed", 1])
    system, data = read_enum_out({"structures": None, "input": "enum.out"})
    n = h[0] * h[2] * h[5]
    what = "enumeration file of the supercell %s:\n%s" % (list(h), open("enum.out").read().split("\n")[-2][:170])
    require(len(data) == 1, "%s\n%d structures are read" % (what, len(data)))
    d = data[0]
    H = ((h[0], 0, 0), (h[1], h[2], 0), (h[3], h[4], h[5]))
    require(tuple(tuple(int(x) for x in r) for r in d["HNF"]) == H, "%s\nis read as %s" % (what, d["HNF"]))
    require(d["n"] == n and d["strN"] == 1 and d["sizeN"] == 1, "%s\nsize %s number %s" % (what, d["n"], d["strN"]))
    D = [int(x) for x in d["diag"]]
    L = [[int(x) for x in r] for r in d["L"]]
    LH = [[sum(L[i][k] * H[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    require(D[0] * D[1] * D[2] == n and D[1] % D[0] == 0 and D[2] % D[1] == 0 and abs(geom.det3(L)) == 1 and
            all(LH[i][j] % D[i] == 0 for i in range(3) for j in range(3)), "%s\ntransforms %s %s" % (what, D, L))
    lab = d["labeling"]
    require([lab.count("0"), lab.count("1")] == list(c) and len(lab) == n and d["directions"] == "0" * n,
            "%s\nlabeling %s %s" % (what, lab, d["directions"]))
    st.states += n
    st.transitions += 1
    st.traces += 1
    st.sample = what


# ------------------------------------------------------------- group files
def do_group(case, st):
    from phenum.io_utils import read_group
    from phenum.phonons import enum_sys
    lat = geom.ZOO[case["lat"]]
    hs = [h for h, _ in geom.reduced_hnfs(lat, case["n"])] if case["n"] <= 6 else spread(geom.all_hnfs(case["n"]), 3)
    for H in spread(hs, 2):
        ref = Ref(lat, H)
        g = sorted({p for p, _ in ref.cell.group(False)})
        # translations first, as in every group the package produces
        tr = ref.trans
        g = list(tr) + [p for p in g if p not in set(tr)]
        if case["n"] > 6:
            g = g[:40]
        N = len(g[0])
        for w in case["wraps"]:
            with open("group", "w") as f:
                f.write("The integer vectors in the final columns of each\npermutation listing describe how a list 1, 2, ...\n"
                        "gets permuted. So \"2 1\" implies that element 2 is\nmapped to position 1, and the first one ends up in\n"
                        "second position.\nNumber of permutations: %4d\n" % len(g))
                for i, p in enumerate(g):
                    cells = ["%5d" % (x + 1) for x in p]
                    f.write("Perm #:%6d Perm:" % (i + 1))
                    if w == 0:
                        w_ = N
                    else:
                        w_ = w
                    for j in range(0, N, w_):
                        f.write((" " * 18 if j else "") + "".join(cells[j:j + w_]) + "\n")
            got = [tuple(int(x) for x in p) for p in read_group("group")]
            st.traces += 1
            st.states += len(g)
            st.transitions += len(g)
            require(got == g, "%s H=%s: group of %d permutations (%d columns) read as %d: %s" %
                    (lat.name, api.six(H), len(g), w, len(got), got[:2]))
        if N <= 6 and N > 1:
            conc = [N // 2, N - N // 2]
            comp, norb, trn = ref.graph(conc, [0, 0])
            res = enum_sys("group", conc, [0, 0], norb, api.six(H), api.params(lat), True)
            orb = [comp[api.word(c)] for c in res]
            require(len(orb) == norb and len(set(orb)) == norb, "%s H=%s: enumeration with the group from the file: classes %s of %d" %
                    (lat.name, api.six(H), orb, norb))
            st.transitions += trn
    st.sample = "%s H=%s: %d permutations of %d sites" % (lat.name, api.six(H), len(g), N)


# ------------------------------------------------------------- labelings
def do_label(case, st):
    from phenum.io_utils import create_labeling
    n = case["n"]
    colors = range(1, 4) if n > 3 else range(1, 10)
    for w in product(colors, repeat=n):
        lab, arr = create_labeling(list(w))
        st.states += 1
        st.transitions += 1
        st.traces += 1
        require(lab == "".join(str(c - 1) for c in w) and arr == "0" * n, "%s is labeled %s %s" % (w, lab, arr))
    for w in product(product(range(-1, 6), range(1, 4)), repeat=min(n, 3)):
        lab, arr = create_labeling([list(s) for s in w])
        st.states += 1
        st.transitions += 1
        st.traces += 1
        require(lab == "".join(str(c - 1) for _, c in w) and arr == "".join(str(a + 1) for a, _ in w),
                "%s is labeled %s %s" % (w, lab, arr))
    st.sample = "%s: %s %s" % (w, lab, arr)
