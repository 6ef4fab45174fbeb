"""C17: the structure files hold the enumerated structure."""
import json
import math
import os
from itertools import product
from .. import api, choice, files, geom
from ..common import require
from ..enumcheck import spread
from .c18 import param

BOUNDS = {"quick": "16 parents (1-4 basis sites), up to 4 supercells of every index up to 4, 3 labelings x 3 displacement patterns each, "
                   "22 option combinations; every outcome (both extremes, middle) of the first 3 random rattles",
          "thorough": "56 parents, up to 12 supercells of every index up to 5; first 5 rattles"}
ASSUMPTIONS = ["positions agree within 2e-5 (the files carry 6 to 8 decimals)"]
NAMES = ["sc", "fcc", "bcc", "hex", "tri", "mono", "tet", "ortho", "hcp", "diamond", "perov3", "perov4", "sc_h2", "bct", "rhl", "hex3", "pyr4", "tet4"]
TOL = 2e-5
TIMEOUT = 400
AXES = [(0, 0, 0)] + list(geom.AXES)
# the codes of the enumeration file: 1..6 for +x -x +y -y +z -z
DIRS = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
ELS = {1: ["Al"], 2: ["Ni", "Al"], 3: ["Cu", "Mg", "Pb"], 4: ["Ti", "Al", "V", "W"]}

OPTS = [
    {}, {"mink": "f"}, {"mink": "t"}, {"species": 1}, {"species": 1, "rz": "t"}, {"rz": "t"}, {"species": 1, "rz": "f", "mink": "f"},
    {"displace": .1}, {"displace": .37, "mink": "f"}, {"displace": -.2}, {"displace": .25, "species": 1}, {"displace": .5},
    {"displace": .12, "rattle": .5}, {"displace": 0, "rattle": .3},
    {"config": "t"}, {"config": "t", "mink": "f"}, {"config": "t", "species": 1}, {"config": "t", "displace": .1},
    {"config": "t", "species": 1, "displace": .2, "mink": "f"}, {"config": "t", "species": 1, "map": 1, "displace": .15},
    {"config": "t", "map": 2}, {"config": "t", "displace": .1, "rattle": .4, "species": 1},
]


def cases(tier):
    q = tier == "quick"
    out = []
    names = sorted(set(NAMES) & set(geom.ZOO)) if q else sorted(geom.ZOO)
    for name in names:
        for n in range(1, 5 if q else 6):
            hs = spread(geom.all_hnfs(n), 4 if q else 12)
            for k in ((2, 3) if n < 4 or not q else (3,)):
                out.append({"kind": "all", "lat": name, "Hs": hs, "k": k})
            if n > 1 and n < 4:
                out.append({"kind": "rattle", "lat": name, "H": hs[-1], "depth": 3 if q else 5, "k": 2})
    return out


def rows_for(lat, hs, k):
    rows = []
    for a, H in enumerate(hs):
        diag, L = api.snf(H)
        N = geom.det3(H) * len(lat.basis)
        for b in range(3):
            lab = "".join(str([i % k, (i * i + a) % k, 0 if b == 2 and i else (i + 1) % k][b]) for i in range(N))
            for c in range(3):
                dirs = "".join(str([0, (i + a + 1) % 7, 1 + (a + b) % 6 if i == (a % N) else 0][c]) for i in range(N))
                rows.append((H, diag, L, lab, dirs))
    return rows


def argv(opt, k, out):
    a = ["all", "-input", "enum.out", "-outfile", out]
    if "mink" in opt:
        a += ["-mink", opt["mink"]]
    if "displace" in opt:
        a += ["-displace", opt["displace"]]
    if "rattle" in opt:
        a += ["-rattle", opt["rattle"]]
    if "rz" in opt:
        a += ["-remove_zeros", opt["rz"]]
    if "config" in opt:
        a += ["-config", opt["config"]]
    els = None
    mapping = None
    if opt.get("map") == 1:                     # a larger set of species, the labels mapped into it
        els = ELS[k + 1]
        mapping = list(range(k, 0, -1))
        a += ["-species"] + els + ["-species_mapping"] + mapping
        els = [els[m] for m in mapping]
    else:
        if opt.get("species"):
            els = ELS[k]
            a += ["-species"] + els
        if opt.get("map") == 2:
            mapping = [2 * i + 1 for i in range(k)]
            a += ["-species_mapping"] + mapping
    return a, els, mapping


def clean():
    for f in os.listdir("."):
        os.remove(f)


def explore(case, st):
    lat = geom.ZOO[case["lat"]]
    k = case["k"]
    clean()
    if case["kind"] == "rattle":
        return rattles(case, lat, st)
    rows = rows_for(lat, case["Hs"], k)
    for opt in OPTS:
        a, els, mapping = argv(opt, k, "cfg" if opt.get("config") == "t" else "P.{}")
        clean()
        files.write_enum_out("enum.out", lat, k, rows)
        files.cli_structures(a)
        got = read(opt, rows, "%s, options %s" % (lat.name, a))
        for i, (g, row) in enumerate(zip(got, rows)):
            what = "%s, structure %d H=%s labeling %s directions %s, options %s" % (
                lat.name, i + 1, api.six(row[0]), row[3], row[4], " ".join(map(str, a[5:])))
            judge(g, lat, row, k, opt, els, mapping, what)
            st.traces += 1
            st.states += len(row[3])
            st.transitions += 1
        st.outcome((case["lat"], json.dumps(opt, sort_keys=True), len(rows[0][3])))
    st.sample = "%d structures x %d option sets, e.g. %s" % (len(rows), len(OPTS), what)
    clean()


def read(opt, rows, what):
    if opt.get("config") == "t":
        require(sorted(os.listdir(".")) == ["cfg", "enum.out"], "%s: files %s" % (what, os.listdir(".")))
        got = files.parse_cfg("cfg")
        require(len(got) == len(rows), "%s: %d entries for %d structures" % (what, len(got), len(rows)))
        for i, g in enumerate(got):
            require(g["title"].split("_")[-1] == str(i + 1), "%s: entry %d is called %s" % (what, i + 1, g["title"]))
        return got
    want = sorted(["P.%d" % (i + 1) for i in range(len(rows))] + ["enum.out"])
    require(sorted(os.listdir(".")) == want, "%s: files %s" % (what, sorted(os.listdir("."))[:9]))
    return [files.parse_poscar("P.%d" % (i + 1)) for i in range(len(rows))]


def solve_latt(lat, p, inv):
    return [sum(p[i] * inv[i][j] for i in range(3)) for j in range(3)]


def judge(g, lat, row, k, opt, els, mapping, what):
    """the file's crystal against the exact one; returns the relative lengths of the displacements"""
    H, diag, L, lab, dirs = row
    cell = geom.Cell(lat, H, L, diag)
    N = len(lab)
    cfg = opt.get("config") == "t"
    conc = [lab.count(str(i)) for i in range(k)]
    scale = 1.0
    if els:
        scale = sum(c * param(lat, e) for c, e in zip(conc, els)) / float(N)
    if cfg:
        require(g["n"] == N and len(g["atoms"]) == N, "%s: %d atoms listed, size %d, %d sites" % (what, len(g["atoms"]), g["n"], N))
        require(sorted(a[0] for a in g["atoms"]) == list(range(1, N + 1)), "%s: ids %s" % (what, [a[0] for a in g["atoms"]]))
        slv = [[x / scale for x in r] for r in g["slv"]]
        atoms = []
        names = mapping or list(range(k))
        for _, t, p in g["atoms"]:
            require(t in names, "%s: type %s" % (what, t))
            atoms.append((names.index(t), [x / scale for x in p]))
    else:
        require(g["mode"][:1] in "dD", "%s: coordinates are %s" % (what, g["mode"]))
        require(abs(g["scale"] - scale) <= .0050001, "%s: scale %s, not %s" % (what, g["scale"], scale))
        rz = opt.get("rz") == "t" and els
        want = [c for c in conc if c or not rz]
        require(g["counts"] == want, "%s: counts %s, not %s" % (what, g["counts"], want))
        if els:
            tn = [e for c, e in zip(conc, els) if c or opt.get("rz") != "t"]
            require(g["title"].split()[:len(tn)] == tn and g["title"].split()[len(tn)] not in els,
                    "%s: title %r does not name %s" % (what, g["title"], tn))
        require(len(g["pos"]) == N, "%s: %d positions for %d sites" % (what, len(g["pos"]), N))
        slv = g["slv"]
        atoms = []
        types = [i for i in range(k) for _ in range(conc[i])]
        for t, d in zip(types, g["pos"]):
            atoms.append((t, [sum(d[a] * slv[a][j] for a in range(3)) for j in range(3)]))
    inv = geom.inv3(lat.vecs)
    B = []
    for v in slv:
        c = solve_latt(lat, v, inv)
        B.append([int(round(x)) for x in c])
        require(max(abs(x - round(x)) for x in c) < 1e-4, "%s: %s is no lattice vector" % (what, v))
    require(geom.col_hnf(geom.transpose(B)) == geom.col_hnf(H), "%s: the cell is another one: %s" % (what, B))
    if opt.get("mink") == "f":
        require(geom.transpose(B) == [list(r) for r in H],
                "%s: the basis was reduced although that was switched off" % what)
    amp = float(opt.get("displace", 0))
    rat = float(opt.get("rattle", 0))
    # candidates: (site, length) every atom can be
    cand = []
    for t, p in atoms:
        row_ = []
        for s in range(N):
            if int(lab[s]) != t:
                continue
            b, z = s // cell.n, cell.zrep(s % cell.n)
            d = DIRS[int(dirs[s])]
            for_site = match(lat, cell, inv, p, b, z, d, amp, rat)
            if for_site is not None:
                row_.append((s, for_site))
        require(row_, "%s: there is an atom of species %d at %s, which is no (displaced) site of it" % (what, t + 1, p))
        cand.append(row_)
    m = matching(cand, N)
    require(m is not None, "%s: the atoms do not occupy the sites one to one" % what)
    return [dict(cand[i])[m[i]] for i in range(N) if dirs[m[i]] != "0"]


def match(lat, cell, inv, p, b, z, d, amp, rat):
    """relative length t with p = site + t*amp*d modulo the cell, or None"""
    base = [sum((float(lat.basis[b][k]) + z[k]) * lat.vecs[k][j] for k in range(3)) for j in range(3)]
    ts = [1.0] if rat == 0 or amp == 0 or not any(d) else None
    if ts is None:
        # the difference must be d*x + a cell vector: try the neighbouring cell vectors
        lo, hi = sorted((amp * (1 - rat), amp * (1 + rat)))
        steps = [lo + (hi - lo) * i / 40. for i in range(41)]
        # every rattle is a continuum; project onto d after removing the nearest cell vector
        best = None
        for x in steps:
            q = [base[j] + d[j] * x for j in range(3)]
            r = residual(cell, inv, p, q)
            along = sum(r[j] * d[j] for j in range(3))
            perp = max(abs(r[j] - along * d[j]) for j in range(3))
            if perp < TOL and abs(along) <= (hi - lo) / 40. + TOL and lo - TOL <= x + along <= hi + TOL:
                best = (x + along) / amp
                return best
        return None
    q = [base[j] + d[j] * amp for j in range(3)]
    r = residual(cell, inv, p, q)
    return 1.0 if max(abs(x) for x in r) < TOL else None


_hinv = {}


def residual(cell, inv, p, q):
    """p-q modulo the supercell, Cartesian"""
    key = cell.H
    if key not in _hinv:
        if len(_hinv) > 5000:
            _hinv.clear()
        _hinv[key] = [[float(x) for x in r] for r in geom.inv3([[float(x) for x in r] for r in cell.H])]
    c = [sum((p[i] - q[i]) * inv[i][j] for i in range(3)) for j in range(3)]
    u = geom.matvec(_hinv[key], c)
    u = [x - round(x) for x in u]
    c = geom.matvec([[float(x) for x in r] for r in cell.H], u)
    A = cell.lat.vecs
    return [sum(c[k] * A[k][j] for k in range(3)) for j in range(3)]


def matching(cand, N):
    owner = {}

    def aug(i, seen):
        for s, _ in cand[i]:
            if s in seen:
                continue
            seen.add(s)
            if s not in owner or aug(owner[s], seen):
                owner[s] = i
                return True
        return False
    for i in range(len(cand)):
        if not aug(i, set()):
            return None
    return {i: s for s, i in owner.items()}


def rattles(case, lat, st):
    k = case["k"]
    H = case["H"]
    diag, L = api.snf(H)
    N = geom.det3(H) * len(lat.basis)
    lab = "".join(str((i + 1) % 2) for i in range(N))
    for dirs in ("1" + "0" * (N - 1), "".join(str(1 + i % 6) for i in range(N)), "0" * N):
        for opt in ({"displace": .2, "rattle": .5}, {"displace": .1, "rattle": 1.0, "mink": "f"},
                    {"displace": .2, "rattle": .5, "config": "t"}):
            row = (H, diag, L, lab, dirs)
            a, els, mapping = argv(opt, k, "cfg" if opt.get("config") == "t" else "P.{}")
            what = "%s H=%s labeling %s directions %s, options %s" % (lat.name, api.six(H), lab, dirs, a[5:])
            lens = set()

            def run():
                clean()
                files.write_enum_out("enum.out", lat, k, [row])
                files.cli_structures(a)
                return read(opt, [row], what)

            def visit(got, ch):
                st.traces += 1
                ls = judge(got[0], lat, row, k, opt, els, mapping, "%s, random draws %s" % (what, ch))
                lens.update(round(x, 3) for x in ls)
                st.outcome((dirs, tuple(round(x, 2) for x in ls)))
            r, d, done = choice.explore(run, visit, case["depth"], 3 ** case["depth"])
            st.states += r
            st.transitions += d
            if set(dirs) != {"0"}:
                require(any(abs(x - 1) > 2e-3 for x in lens), "%s: the displacements are never randomised" % what)
    st.sample = "%s: relative displacements %s" % (what, sorted(lens)[:8])
    clean()
