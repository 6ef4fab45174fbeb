"""C27: two projects in one directory, each under its own file names, do not disturb each other."""
import os
from .. import api, files, geom
from ..common import require

BOUNDS = {"quick": "two projects (12 pairs of set-ups) in one directory, the first under the default names (left out or spelt out), the second under names given with "
                   "-lattice, -input and -outfile; every pair of states reachable by up to 4 commands in all out of 14 (counting, distributing all/some/by concentration/filtered/one size, "
                   "enumerating with and without superperiodic structures or thinned, listing to another file, writing structures of two formats), names that have nothing in common or start alike, and every command of either project from each; every "
                   "mix of given and default names for every command (also enumerating with nothing prepared) with files of another project at the unused default names, states of up to 2 commands",
          "thorough": "up to 6 commands in all, states of up to 3"}
ASSUMPTIONS = ["a project enumerates without a list of systems of its own only where no count tables of another project lie at their default name"]
TIMEOUT = 700
SETUPS = [("sc", [1, 2], 2, None, None), ("hcp", [1, 1], 2, None, None), ("sc", [2, 2], 2, [[0, 1, 1], [0, 1, 1]], (0, .5)),
          ("ortho", [2, 3], 2, [[1, 3, 6], [3, 5, 6]], None)]
# what a file is called in a project of its own -> in the second project of the shared directory
NAMES = [[("lattice.in", "second.lat"), ("polya.out", "my.counts"), ("enum.in", "wanted.2"), ("enum.out", "found"), ("dist", "shares"),
          ("struct_enum.out", "listing"), ("vasp", "POS.v1"), ("cfg", "to-relax.cfg"), ("flt", "only")],
         # names that start like those of the first project
         [("lattice.in", "lattice.in2"), ("polya.out", "polya.out.b"), ("enum.in", "enum.in.old"), ("enum.out", "enum.out_2"), ("dist", "dist2"),
          ("struct_enum.out", "struct_enum.out2"), ("vasp", "vasp2.of.b"), ("cfg", "cfg.2"), ("flt", "flt2")]]


def cases(tier):
    q = tier == "quick"
    n = len(SETUPS)
    out = [{"kind": "options", "a": i, "b": (i + 1 + j) % n, "names": m, "depth": 2 if q else 3}
           for i in range(n) for j in range(1 if q else n - 1) for m in range(2)]
    parts = 2 if q else 24
    return out + [{"kind": "pair", "a": i, "b": j, "names": (i + 2 * j) % 3 % 2, "spelt": (i + j) % 2 == 1, "depth": 4 if q else 6, "part": p, "parts": parts}
                  for i in range(n) for j in range(n) if i != j for p in range(parts)]


def argv(op, nm, spelt):
    """the command line; nm: the project's names; spelt: whether names equal to the defaults are given too"""
    def opt(flag, key):
        v = nm[key]
        if nm[key] != key and v in ("second.lat", "wanted.2", "found", "listing"):
            v = "./" + v
        return [flag, v + (".{}" if key == "vasp" and v in (key, "vasp2.of.b") else "")] if spelt or nm[key] != key else []
    lat = opt("-lattice", "lattice.in")
    tab_o, tab_i = opt("-outfile", "polya.out"), opt("-input", "polya.out")
    lst_o, lst_i = opt("-outfile", "enum.in"), opt("-input", "enum.in")
    return {
        "count": ("e", ["-polya"] + lat + tab_o),
        "distribute all": ("e", ["-distribution", "all", "all"] + tab_i + lst_o + lat),
        "distribute 3": ("e", ["-distribution", "all", "3", "-seed", "2"] + lst_o + lat + tab_i),
        "by concentration": ("e", ["-distribution", "conc", "4", "-savedist", "-seed", "5", "-outfile", nm["dist"]] + tab_i + lat),
        "shown by size": ("e", ["-distribution", "size", "all"] + tab_i + lat),
        "enumerate": ("e", ["-enum", "-seed", "1"] + lst_i + opt("-outfile", "enum.out") + lat),
        "enumerate super": ("e", ["-enum", "-super", "-seed", "1"] + lat + opt("-outfile", "enum.out") + lst_i),
        "list": ("e", ["-enum", "-super", "-seed", "3", "-outfile", nm["struct_enum.out"]] + lat + lst_i),
        "structures": ("s", ["1", "3"] + opt("-input", "struct_enum.out") + opt("-outfile", "vasp")),
        "filtered": ("e", ["-distribution", "all", "2", "-filter", "conc", nm["flt"], "-seed", "9"] + tab_i + lst_o + lat),
        "sized": ("e", ["-distribution", "all", "2", "-sizes", "2", "3", "-seed", "3"] + lst_o + tab_i + lat),
        "thinned": ("e", ["-enum", "-super", "-acceptrate", "0.5", "-seed", "4"] + lst_i + opt("-outfile", "enum.out") + lat),
        "elements": ("s", ["all", "-species", "Al", "Ni"] + opt("-outfile", "vasp") + opt("-input", "struct_enum.out")),
        "relax": ("s", ["2", "-config", "t", "-outfile", nm["cfg"], "-input", nm["enum.out"]]),
    }[op]


OPS = ["count", "distribute all", "distribute 3", "by concentration", "shown by size", "enumerate", "enumerate super", "list", "structures", "filtered", "sized",
       "thinned", "elements", "relax"]


def possible(op, state):
    if op in ("enumerate", "enumerate super", "list", "thinned"):
        return "enum.in" in state and any(l.strip() and not l.lstrip().startswith("#") for l in state["enum.in"].split("\n"))
    if op in ("structures", "elements"):
        return "struct_enum.out" in state
    if op == "sized":
        return "polya.out.2" in state
    if op == "relax":
        return "enum.out" in state and state.get("cfg", "").count("BEGIN_CFG") < 2
    return True


def snapshot():
    out = {}
    for f in sorted(os.listdir(".")):
        t = open(f).read()
        if t.startswith("Random structure enumeration"):
            # the first line of an enumeration file carries the date
            t = "Random structure enumeration: DATE\n" + t.split("\n", 1)[1]
        out[f] = t
    return out


def restore(state):
    for f in os.listdir("."):
        os.remove(f)
    for f, t in state.items():
        with open(f, "w") as o:
            o.write(t)


def rename(state, names, keys=None):
    out = {}
    for f, t in state.items():
        for old, new in names:
            if keys is not None and old not in keys:
                continue
            if f == old or f.startswith(old + "."):
                out[new + f[len(old):]] = t
                break
        else:
            out[f] = t
    return out


def run(kind, args):
    with api.shared_groups(), api.shared_cells():
        (files.cli_enum if kind == "e" else files.cli_structures)(args)


DEFAULT = {a: a for a, _ in NAMES[0]}


class Solo(object):
    """One project alone in the directory under the default names: states, and what each command does."""

    def __init__(self, setup, depth, st, ok=possible):
        name, sizes, k, rows, fr = setup
        for f in os.listdir("."):
            os.remove(f)
        files.write_lattice_in("lattice.in", geom.ZOO[name], sizes, k, rows, fr)
        with open("flt", "w") as f:
            f.write("# sites, atoms of each species\n 2   1 1\n")
        start = snapshot()
        self.states, self.depth, self.next = [start], [0], {}
        index = {repr(sorted(start.items())): 0}
        i = 0
        while i < len(self.states):
            for op in OPS:
                if not ok(op, self.states[i]):
                    continue
                restore(self.states[i])
                run(*argv(op, DEFAULT, False))
                after = snapshot()
                st.traces += 1
                key = repr(sorted(after.items()))
                if key not in index:
                    if self.depth[i] == depth:
                        self.next[(i, op)] = after
                        continue
                    index[key] = len(self.states)
                    self.states.append(after)
                    self.depth.append(self.depth[i] + 1)
                self.next[(i, op)] = self.states[index[key]]
            i += 1


def explore(case, st):
    (options if case.get("kind") == "options" else pair)(case, st)


# what each command reads and writes
USES = {"count": ["lattice.in", "polya.out"], "distribute all": ["lattice.in", "polya.out", "enum.in"], "distribute 3": ["lattice.in", "polya.out", "enum.in"],
        "by concentration": ["lattice.in", "polya.out", "dist"], "shown by size": ["lattice.in", "polya.out"],
        "enumerate": ["lattice.in", "enum.in", "enum.out"], "enumerate super": ["lattice.in", "enum.in", "enum.out"], "list": ["lattice.in", "enum.in", "struct_enum.out"],
        "filtered": ["lattice.in", "polya.out", "enum.in", "flt"], "sized": ["lattice.in", "polya.out", "enum.in"],
        "thinned": ["lattice.in", "enum.in", "enum.out"], "structures": ["struct_enum.out", "vasp"], "elements": ["struct_enum.out", "vasp"], "relax": ["enum.out", "cfg"]}


def may(op, state):
    """enumerating also without a list of systems: everything is built that is missing"""
    if op in ("enumerate", "enumerate super", "thinned") and "enum.in" not in state:
        return True
    return possible(op, state)


def options(case, st):
    """one project under every mix of given and default names, files of another one lying at the default names it does not use"""
    a, b = SETUPS[case["a"]], SETUPS[case["b"]]
    B = Solo(b, case["depth"], st, may)
    for f in os.listdir("."):
        os.remove(f)
    files.write_lattice_in("lattice.in", geom.ZOO[a[0]], a[1], a[2], a[3], a[4])
    for op in ("count", "distribute all", "enumerate", "list", "structures"):
        run(*argv(op, DEFAULT, False))
    other = snapshot()
    always = ["dist", "cfg"]
    names = NAMES[case["names"]]
    SECOND = dict(names)
    for i in range(len(B.states)):
        for op in OPS:
            if (i, op) not in B.next:
                continue
            keys = [k for k in USES[op] if k not in always]
            scratch = (op.startswith("enumerate") or op == "thinned") and "enum.in" not in B.states[i]
            for bits in range(1 << len(keys)):
                named = [k for j, k in enumerate(keys) if bits >> j & 1] + always
                nm = {k: SECOND[k] if k in named else k for k in DEFAULT}
                mine = rename(B.states[i], names, named)
                taken = {k for k in DEFAULT if k not in named and k in USES[op]} | ({"polya.out"} if scratch else set())
                decoy = {f: t for f, t in other.items() if not any(f == k or f.startswith(k + ".") for k in taken) and f not in mine}
                start = dict(decoy)
                start.update(mine)
                restore(start)
                kind, args = argv(op, nm, False)
                run(kind, args)
                got = snapshot()
                st.traces += 1
                st.transitions += 1
                st.states += 1
                want = dict(decoy)
                want.update(rename(B.next[(i, op)], names, named))
                bad = sorted(f for f in set(got) | set(want) if got.get(f) != want.get(f))
                require(not bad, "project %s with the names %s, files of %s at the other default names, the command %s: %s" % (
                    b, sorted(nm[k] for k in keys), a, " ".join(map(str, args)), "; ".join(
                        "%s is %s" % (f, "missing" if f not in got else "written though it should not be" if f not in want else
                                      "%s instead of %s" % diff(got[f], want[f])) for f in bad[:3])))
    st.outcome((case["a"], case["b"], len(B.states)))
    st.sample = "%d states" % len(B.states)


def pair(case, st):
    a, b = SETUPS[case["a"]], SETUPS[case["b"]]
    top = case["depth"]
    A, B = Solo(a, top - 1, st), Solo(b, top - 1, st)
    names = NAMES[case["names"]]
    SECOND = dict(names)
    second = [rename(s, names) for s in B.states]
    pairs = [(i, j) for i in range(len(A.states)) for j in range(len(B.states)) if A.depth[i] + B.depth[j] < top]
    for n, (i, j) in enumerate(pairs):
        if n % case["parts"] != case["part"]:
            continue
        both = dict(A.states[i])
        require(not set(both) & set(second[j]), "the projects share a file name")
        both.update(second[j])
        st.states += 1
        for proj, solo, s, nm in ((0, A, i, DEFAULT), (1, B, j, SECOND)):
            for op in OPS:
                if (s, op) not in solo.next:
                    continue
                restore(both)
                kind, args = argv(op, nm, proj == 1 or case["spelt"])
                run(kind, args)
                got = snapshot()
                st.traces += 1
                st.transitions += 1
                want = dict(solo.next[(s, op)] if proj == 0 else A.states[i])
                want.update(second[j] if proj == 0 else rename(solo.next[(s, op)], names))
                bad = sorted(f for f in set(got) | set(want) if got.get(f) != want.get(f))
                require(not bad, "projects %s (default names) and %s, the command %s: %s" % (
                    a, b, " ".join(map(str, args)), "; ".join(
                        "%s is %s" % (f, "missing" if f not in got else "written though it should not be" if f not in want else
                                      "%s instead of %s" % (diff(got[f], want[f]))) for f in bad[:3])))
    st.outcome((len(A.states), len(B.states), case["spelt"]))
    st.sample = "%d and %d states, %d pairs" % (len(A.states), len(B.states), len(pairs))


def diff(x, y):
    u, v = x.split("\n"), y.split("\n")
    for p, q in zip(u, v):
        if p != q:
            return repr(p[:80]), repr(q[:80])
    return "%d lines" % len(u), "%d lines" % len(v)
