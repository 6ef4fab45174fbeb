"""C20: the files of the workflow agree with each other and with the enumeration."""
import os
from fractions import Fraction as F
from .. import api, files, geom
from ..common import require
from ..enumcheck import Ref

BOUNDS = {"quick": "every sequence of up to 4 commands out of 12 (counting, distributing all/some/by shape/by size/filtered, enumerating with and "
                   "without superperiodic structures, enumerating with a distribution, removing or editing the list of systems), identical directory "
                   "states explored once; 16 set-ups (unrestricted, restricted, displaced; 1-3 species; 1-3 sites per parent cell; sizes 1-4; sizes 9 and 10, up to 3 commands)",
          "thorough": "sequences of up to 5 commands, larger sizes"}
ASSUMPTIONS = ["the count tables in the directory belong to the lattice file in the directory"]
TIMEOUT = 700
SETUPS = [("sc", [1, 3], 2, None, None), ("fcc", [2, 3], 2, None, None), ("hex", [1, 2], 3, None, None), ("hcp", [1, 2], 2, None, None),
          ("ortho", [2, 3], 2, [[1, 3, 6], [3, 5, 6]], None), ("sc", [2, 3], 2, [[0, 1, 1], [0, 1, 1]], (0, .5)),
          ("fcc", [1, 3], 2, [[0, 1, 2], [1, 2, 2]], (1.0, 0)), ("sc", [1, 2], 1, [[0, 1, 1]], (.5,)), ("tet", [3, 3], 3, [[1, 1, 3]] * 3, None),
          ("diamond", [1, 2], 2, None, None), ("tri", [1, 4], 2, [[1, 1, 2], [1, 1, 2]], None), ("perov3", [1, 1], 3, None, None),
          ("sc_h2", [1, 2], 2, [[0, 1, 2], [0, 1, 1]], (.5, 0)), ("bct", [4, 4], 2, [[1, 3, 4], [0, 1, 1]], None)]
# sizes of one and two digits, few concentrations
WIDE = [("sc", [9, 10], 2, [[9, 10, 90], [80, 81, 90]], None), ("fcc", [9, 10], 2, [[9, 10, 90], [80, 81, 90]], None)]
SETUPS += WIDE


def cases(tier):
    out = []
    for i, s in enumerate(SETUPS):
        out.append({"setup": i, "depth": (3 if s in WIDE else 4) if tier == "quick" else (4 if s in WIDE else 5), "grow": tier == "thorough" and s not in WIDE})
    return out


class World(object):
    """The set-up and what is exactly true of it."""

    def __init__(self, setup, grow):
        name, self.sizes, self.k, self.rows, self.fr = setup
        self.sizes = list(self.sizes)
        if grow and len(geom.ZOO[name].basis) == 1 and not self.fr:
            self.sizes[1] += 1
        self.lat = geom.ZOO[name]
        self.nb = len(self.lat.basis)
        self.frac = list(self.fr) if self.fr else [0] * self.k
        self.refs = {}
        self.classes = {}
        self.avail = {}

    def parts(self, c):
        ar = [int(x * y + 1e-9) for x, y in zip(c, self.frac)]
        return [x - y for x, y in zip(c, ar)], ar

    def concs(self, n):
        N = n * self.nb
        return [c for c in geom.compositions(N, self.k) if self.rows is None or
                all(F(r[0], r[2]) * N <= x <= F(r[1], r[2]) * N for r, x in zip(self.rows, c))]

    def ref(self, h, diag=None, L=None):
        key = (tuple(h), None if L is None else str(L))
        if key not in self.refs:
            H = ((h[0], 0, 0), (h[1], h[2], 0), (h[3], h[4], h[5]))
            r = Ref(self.lat, H)
            if L is not None:
                r.cell = geom.Cell(self.lat, H, L, diag)
                r.trans = r.cell.translations()
            self.refs[key] = r
        return self.refs[key]

    def graph(self, h, c, diag=None, L=None):
        """(word -> class, number of classes, classes that are not superperiodic)"""
        key = (tuple(h), tuple(c), None if L is None else str(L))
        if key not in self.classes:
            r = self.ref(h, diag, L)
            pl, ar = self.parts(c)
            arrows = sum(self.frac) > 0
            comp, norb, tr = geom.orbits(r.gens(arrows), geom.colorings(pl, ar))
            self.classes[key] = (comp, norb, r.aperiodic_orbits(comp))
        return self.classes[key]


def snapshot():
    return {f: undated(f) for f in sorted(os.listdir("."))}


def undated(f):
    t = open(f).read()
    if t.startswith("Random structure enumeration"):
        t = "DATE\n" + t.split("\n", 1)[1]
    return t


def restore(state):
    for f in os.listdir("."):
        os.remove(f)
    for f, t in state.items():
        with open(f, "w") as o:
            o.write(t)


def ops(w):
    lo, hi = w.sizes
    out = [("count", ["-polya"]),
           ("distribute all", ["-distribution", "all", "all"]),
           ("distribute 3", ["-distribution", "all", "3", "-seed", "1"]),
           ("distribute 5 of the smallest", ["-distribution", "all", "5", "-seed", "4", "-sizes", lo, lo + 1]),
           ("by shape", ["-distribution", "shape", "4", "-savedist", "-outfile", "dist", "-seed", "2"]),
           ("by size, shown", ["-distribution", "size", "all"]),
           ("filter", ["-distribution", "all", "2", "-filter", "conc", "flt", "-seed", "9"]),
           ("enumerate", ["-enum", "-seed", "1"]),
           ("enumerate super", ["-enum", "-super", "-seed", "5"]),
           ("enumerate 4", ["-enum", "-distribution", "all", "4", "-super", "-seed", "3"]),
           ("remove list", None),
           ("edit list", None)]
    return out


def parse_table(path, w):
    ls = open(path).read().strip("\n").split("\n")
    cs = [tuple(map(int, x.split(":"))) for x in ls[0].split()[2:-1]]
    t = {}
    for l in ls[1:]:
        if l.startswith("#"):
            continue
        r = [int(x) for x in l.split()]
        if r[:6] == [0] * 6:
            totals = r[6:]
            continue
        for c, v in zip(cs, r[6:-1]):
            require((tuple(r[:6]), c) not in t, "%s lists %s twice" % (path, r[:6]))
            t[(tuple(r[:6]), c)] = v
        require(r[-1] == sum(r[6:-1]), "%s: total of %s" % (path, r[:6]))
    require(totals[:-1] == [sum(v for (h, c), v in t.items() if c == cc) for cc in cs] and totals[-1] == sum(t.values()),
            "%s: totals %s" % (path, totals))
    return t, cs


def check_tables(w, st):
    """all count tables, exactly"""
    table = {}
    for n in range(w.sizes[0], w.sizes[1] + 1):
        t, cs = parse_table("polya.out.%d" % n, w)
        require(sorted(cs) == sorted(w.concs(n)), "polya.out.%d: concentrations %s, should be %s" % (n, cs, w.concs(n)))
        shapes = sorted({h for h, _ in t})
        if cs:
            require(len(shapes) == len(geom.reduced_hnfs(w.lat, n)), "polya.out.%d: %d supercells" % (n, len(shapes)))
        for (h, c), v in t.items():
            require(h[0] * h[2] * h[5] == n, "polya.out.%d: supercell %s" % (n, h))
            norb = w.graph(h, c)[1]
            require(v == norb, "polya.out.%d: %s %s: %d, there are %d" % (n, h, c, v, norb))
            st.states += 1
        table.update(t)
    return table


def parse_list(text):
    out = {}
    for l in text.split("\n"):
        if l.strip() == "" or l.lstrip().startswith("#"):
            continue
        v = [int(x) for x in l.split()]
        key = (tuple(v[:6]), tuple(v[6:-1]))
        require(key not in out, "%s is listed twice in the list of systems" % (key,))
        out[key] = v[-1]
    return out


def check_list(w, table, lst, n, what, sizes=None, conc=None):
    av = {k: v for k, v in table.items() if v and (sizes is None or k[0][0] * k[0][2] * k[0][5] in sizes) and (conc is None or k[1] in conc)}
    tot = sum(av.values())
    for k, v in lst.items():
        require(k in av, "%s: the list of systems names %s which has no structures" % (what, k))
        require(0 < v <= av[k], "%s: the list of systems asks for %d of %s, there are %d" % (what, v, k, av[k]))
    want = tot if n is None else min(n, tot)
    require(sum(lst.values()) == want, "%s: the list of systems asks for %d structures, should be %d" % (what, sum(lst.values()), want))


def check_enum(w, lst, supers, what, st):
    ls = open("enum.out").read().split("\n")
    i = [k for k, l in enumerate(ls) if l.lstrip().startswith("start")]
    require(len(i) == 1, "%s: no column line in the enumeration file" % what)
    rows = [l.split() for l in ls[i[0] + 1:] if l.strip()]
    head = ls[:i[0]]
    A = [[float(x) for x in l.split()] for l in head[2:5]]
    require(all(abs(A[a][b] - w.lat.vecs[a][b]) < 1e-6 for a in range(3) for b in range(3)), "%s: lattice in the enumeration file %s" % (what, A))
    require(int(head[5].split()[0]) == w.nb, "%s: %s" % (what, head[5]))
    B = [[float(x) for x in l.split()[:3]] for l in head[6:6 + w.nb]]
    require(all(abs(x - y) < 1e-6 for u, v in zip(B, w.lat.cart_basis) for x, y in zip(u, v)), "%s: basis in the enumeration file %s" % (what, B))
    got = {}
    last, cnt = 0, 0
    for j, r in enumerate(rows):
        require(len(r) == 28, "%s: structure line %s" % (what, r))
        num, cntsize, n = int(r[0]), int(r[5]), int(r[6])
        D = [int(x) for x in r[8:11]]
        h = tuple(int(x) for x in r[11:17])
        L = [[int(x) for x in r[17 + 3 * a:20 + 3 * a]] for a in range(3)]
        lab, dirs = r[26], r[27]
        where = "%s, structure %d" % (what, j + 1)
        require(num == j + 1, "%s is numbered %d" % (where, num))
        require(n == h[0] * h[2] * h[5], "%s: size %d of supercell %s" % (where, n, h))
        require(n >= last, "%s: size %d after size %d" % (where, n, last))
        cnt = cnt + 1 if n == last or last == 0 else 1
        last = n
        require(cntsize == cnt, "%s: number %d of its size, should be %d" % (where, cntsize, cnt))
        H = [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]
        LH = geom.matmul(L, H)
        require(D[0] * D[1] * D[2] == n and min(D) > 0 and D[1] % D[0] == 0 and D[2] % D[1] == 0 and abs(geom.det3(L)) == 1 and
                all(LH[a][b] % D[a] == 0 for a in range(3) for b in range(3)), "%s: supercell %s with diagonal %s and left transform %s" % (where, h, D, L))
        require(len(lab) == len(dirs) == n * w.nb, "%s: labeling %s directions %s" % (where, lab, dirs))
        word = tuple((int(d) - 1, int(x) + 1) for d, x in zip(dirs, lab))
        c = tuple(sum(1 for x in lab if int(x) == s) for s in range(w.k))
        require((h, c) in lst, "%s: %s %s was not asked for" % (where, h, c))
        comp, norb, prim = w.graph(h, c, D, L)
        require(word in comp, "%s: %s %s does not have the composition asked for" % (where, lab, dirs))
        o = (comp[word], str(L))
        s = got.setdefault((h, c), set())
        require(o not in s and (not s or list(s)[0][1] == o[1]), "%s: %s %s is equivalent to an earlier structure" % (where, lab, dirs))
        require(supers or comp[word] in prim, "%s: %s %s is superperiodic" % (where, lab, dirs))
        s.add(o)
        st.transitions += 1
    for (h, c), v in lst.items():
        comp, norb, prim = w.graph(h, c)
        want = min(v, norb if supers else len(prim))
        have = len(got.get((h, c), ()))
        require(have == want, "%s: %d structures of supercell %s concentration %s, should be %d" % (what, have, h, c, want))
    return len(rows)


def step(w, st, name, argv, before, trail):
    """run one command in the current directory, check everything it wrote"""
    what = "after %s" % " | ".join(trail)
    st.traces += 1
    if name == "remove list":
        if os.path.exists("enum.in"):
            os.remove("enum.in")
        return True
    if name == "edit list":
        if "enum.in" not in before:
            return False
        lst = sorted(parse_list(before["enum.in"]).items())
        # the user drops one system and wants fewer, in another order
        with open("enum.in", "w") as f:
            f.write("# mine\n")
            for (h, c), v in lst[:0:-1] if len(lst) > 1 else lst:
                f.write(" ".join(map(str, h + c)) + "   %d\n" % max(1, v - 1))
        return True
    if argv[0] == "-enum" and "enum.in" in before and not parse_list(before["enum.in"]):
        return False
    with api.shared_groups(), api.shared_cells():
        files.cli_enum(argv)
    after = snapshot()
    had_tables = "polya.out.%d" % w.sizes[0] in before
    changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
    tables = {"polya.out.%d" % n for n in range(w.sizes[0], w.sizes[1] + 1)}
    allowed = set()
    if not had_tables and not ("enum.in" in before and argv[0] == "-enum"):
        allowed |= tables
    if name == "count":
        allowed |= tables
    elif name == "by shape":
        allowed.add("dist")
    elif name.startswith("enum"):
        allowed.add("enum.out")
        if "enum.in" not in before:
            allowed.add("enum.in")
    elif name != "by size, shown":
        allowed.add("enum.in")
    require(changed <= allowed, "%s: %s changed" % (what, sorted(changed - allowed)))
    table = None
    if tables & changed or name == "count":
        require(tables <= set(after), "%s: tables %s" % (what, sorted(after)))
        w.table = check_tables(w, st)
    table = getattr(w, "table", None)
    if "enum.in" in allowed:
        n = {"distribute 3": 3, "distribute 5 of the smallest": 5, "filter": 2, "enumerate 4": 4}.get(name)
        require("enum.in" in after, "%s: no list of systems" % what)
        check_list(w, table, parse_list(after["enum.in"]), n, what, [w.sizes[0]] if "smallest" in name else None,
                   w.filter if name == "filter" else None)
    if name == "by shape":
        lst = [[int(x) for x in l.split()] for l in after["dist"].split("\n") if l.strip() and not l.startswith("#")]
        tot = {}
        for (h, c), v in table.items():
            tot[h] = tot.get(h, 0) + v
        require(sum(l[-1] for l in lst) == min(4, sum(tot.values())) and len({tuple(l[:6]) for l in lst}) == len(lst) and
                all(l[-1] <= tot[tuple(l[:6])] for l in lst), "%s: distribution %s of %s" % (what, lst, tot))
    if name.startswith("enum"):
        require("enum.out" in after, "%s: no enumeration file" % what)
        st.outcome(check_enum(w, parse_list(after["enum.in"]), "-super" in argv, what, st))
    return True


def explore(case, st):
    w = World(SETUPS[case["setup"]], case["grow"])
    for f in os.listdir("."):
        os.remove(f)
    files.write_lattice_in("lattice.in", w.lat, w.sizes, w.k, w.rows, w.fr)
    w.filter = (w.concs(w.sizes[1]) or w.concs(w.sizes[0]))[:2]
    with open("flt", "w") as f:
        for c in w.filter:
            f.write("  %d   %s\n" % (sum(c), " ".join(map(str, c))))
    start = snapshot()
    seen = {repr(sorted(start.items()))}
    front = [(start, [])]
    for depth in range(case["depth"]):
        nxt = []
        for state, trail in front:
            for name, argv in ops(w):
                restore(state)
                if not step(w, st, name, argv and [str(a) for a in argv], state, trail + [name]):
                    continue
                after = snapshot()
                k = repr(sorted(after.items()))
                if k not in seen:
                    seen.add(k)
                    nxt.append((after, trail + [name]))
        front = nxt
        if not front:
            break
    st.states += len(seen)
    st.sample = "%s: %d directory states, %s" % (SETUPS[case["setup"]], len(seen), "closed" if not front else "depth %d" % case["depth"])
