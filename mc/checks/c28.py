"""C28: asking for more output, or for the examples, changes nothing but what is shown."""
import contextlib
import io
import os
import subprocess
import sys
import types
from .. import api, choice, common, files, geom
from ..common import require
from .c27 import diff, restore, snapshot

BOUNDS = {"quick": "commands: every state of a project (8 set-ups) reached by up to 3 commands, 13 commands from each, plain and with -verbose, -debug, both, each with "
                   "and without the progress-bar library; drawing and enumerating directly: 10 supercells of 6 parents, every kind of search (full, subset, thinned, "
                   "guessing, only displaced sites, one species) at 6 verbosity levels, every outcome of the first 2 draws; the examples of both scripts "
                   "alone and with other options",
          "thorough": "up to 5 commands, first 3 draws, more supercells"}
ASSUMPTIONS = ["the date in the first line of an enumeration file is not part of the result"]
TIMEOUT = 600
SETUPS = [("sc", [1, 2], 3, None, None), ("hcp", [1, 1], 2, None, None), ("sc", [2, 2], 2, [[0, 1, 1], [0, 1, 1]], (0, .5)),
          ("ortho", [3, 3], 2, [[1, 3, 6], [3, 5, 6]], None), ("fcc", [2, 2], 2, [[1, 1, 2], [1, 3, 4]], (1., 0)),
          ("tet", [2, 2], 3, None, None), ("sc_h2", [1, 1], 2, [[0, 1, 1], [0, 1, 1]], (1., 1.)), ("bcc", [2, 2], 3, [[0, 1, 2], [1, 2, 3], [0, 1, 4]], None)]
FLAGS = [["-verbose"], ["-debug"], ["-debug", "-verbose"]]
LEVELS = [None, 0, False, True, 1, 2, 5]
OPS = {
    "count": ("e", ["-polya"]),
    "distribute all": ("e", ["-distribution", "all", "all"]),
    "distribute 3": ("e", ["-distribution", "all", "3", "-seed", "2"]),
    "by concentration": ("e", ["-distribution", "conc", "4", "-savedist", "-seed", "5"]),
    "by shape": ("e", ["-distribution", "shape", "2", "-seed", "7"]),
    "shown by size": ("e", ["-distribution", "size", "all"]),
    "enumerate": ("e", ["-enum", "-seed", "1"]),
    "enumerate super": ("e", ["-enum", "-super", "-seed", "1"]),
    "enumerate thinned": ("e", ["-enum", "-seed", "4", "-acceptrate", "0.5", "-outfile", "thin.out"]),
    "structures": ("s", ["1", "3", "-input", "enum.out"]),
    "elements": ("s", ["all", "-input", "enum.out", "-species", "Al", "Ni", "-outfile", "poscar.{}"]),
    "relax": ("s", ["2", "-config", "t", "-input", "enum.out"]),
    "moved": ("s", ["1", "-displace", "0.3", "-input", "enum.out", "-mink", "f"]),
}


# ------------------------------------------------------------------ a stand-in for the progress bar
class Bar(object):
    """accepts whatever a progress bar is asked"""
    def __init__(self, iterable=None, *a, **kw):
        self.iterable = iterable
        self.total = kw.get("total")
        self.n = 0

    def __iter__(self):
        for x in self.iterable:
            self.n += 1
            yield x

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, n=1):
        self.n += n

    def __getattr__(self, name):
        return lambda *a, **kw: None


class Missing(object):
    def find_spec(self, name, path=None, target=None):
        if name == "tqdm" or name.startswith("tqdm."):
            raise ModuleNotFoundError("No module named 'tqdm'")
        return None


@contextlib.contextmanager
def library(present):
    """with a progress-bar library, or with none"""
    gone = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "tqdm" or k.startswith("tqdm.")}
    finder = Missing()
    if present:
        m = types.ModuleType("tqdm")
        m.tqdm = Bar
        m.trange = lambda *a, **kw: Bar(range(*a), **kw)
        auto = types.ModuleType("tqdm.auto")
        auto.tqdm, auto.trange = m.tqdm, m.trange
        m.auto = auto
        sys.modules["tqdm"], sys.modules["tqdm.auto"] = m, auto
    else:
        sys.meta_path.insert(0, finder)
    try:
        yield
    finally:
        for k in list(sys.modules):
            if k == "tqdm" or k.startswith("tqdm."):
                del sys.modules[k]
        sys.modules.update(gone)
        if finder in sys.meta_path:
            sys.meta_path.remove(finder)


def cases(tier):
    q = tier == "quick"
    out = []
    for i in range(len(SETUPS)):
        for lib in (False, True):
            out.append({"kind": "commands", "setup": i, "lib": lib, "depth": 3 if q else 5})
    for name, H, c, a in searches(q):
        out.append({"kind": "search", "lat": name, "H": H, "c": c, "a": a, "depth": 2 if q else 3, "runs": 12 if q else 100})
    for s in ("enumeration", "phenumStr"):
        out.append({"kind": "examples", "script": s})
    return out


def searches(q):
    d = lambda a, b, c: [[a, 0, 0], [0, b, 0], [0, 0, c]]
    l = [("sc", d(1, 1, 4), [2, 2], [0, 0]), ("sc", d(1, 2, 2), [2, 2], [0, .5]), ("sc", d(1, 1, 4), [3, 1], [0, 1.]), ("fcc", d(1, 1, 6), [2, 2, 2], [0, 0, 0]),
         ("hcp", d(1, 1, 2), [2, 2], [0, 0]), ("sc", d(1, 2, 2), [4], [1.]), ("tet", d(1, 1, 3), [1, 1, 1], [0, 1., 0]), ("sc", d(1, 1, 5), [5], [0]),
         ("sc", d(1, 2, 6), [10, 1, 1], [0, 1., 1.]), ("tri", d(1, 4, 5), [10, 10], [0, 0]), ("sc", d(1, 1, 12), [11, 1], [0, 1.]), ("sc", d(1, 1, 4), [1, 1, 1, 1], [0] * 4)]
    if not q:
        l += [("bcc", d(1, 2, 4), [4, 4], [0, 0]), ("sc", d(2, 2, 2), [6, 2], [0, .5]), ("perov3", d(1, 1, 2), [4, 2], [0, 0]), ("ortho", d(1, 2, 3), [3, 2, 1], [0, .5, 0]),
              ("sc", d(1, 3, 4), [12], [1.]), ("mono", d(1, 3, 7), [8, 13], [0, 0])]
    return l


def explore(case, st):
    globals()[case["kind"]](case, st)


# ------------------------------------------------------------------ commands
def possible(op, state):
    if op.startswith("enumerate"):
        return "enum.in" in state and any(l.strip() and not l.lstrip().startswith("#") for l in state["enum.in"].split("\n"))
    if op == "relax":
        return "enum.out" in state and not any(f.startswith("vasp") and "BEGIN_CFG" in t for f, t in state.items())
    if op == "elements":
        return "enum.out" in state and "2-nary" in state["enum.out"]
    if OPS[op][0] == "s":
        return "enum.out" in state
    return True


def execute(kind, args):
    """the outcome and what it leaves: one command in a process of its own"""
    from phenum import msg
    msg.set_verbosity(None)
    with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
        try:
            with api.shared_groups(), api.shared_cells():
                (files.cli_enum if kind == "e" else files.cli_structures)(args)
            end = "done"
        except (Exception, SystemExit) as e:
            end = "%s: %s" % (type(e).__name__, e)
    msg.set_verbosity(None)
    return end, snapshot(), o.getvalue()


def commands(case, st):
    name, sizes, k, rows, fr = setup = SETUPS[case["setup"]]
    files.write_lattice_in("lattice.in", geom.ZOO[name], sizes, k, rows, fr)
    start = snapshot()
    states, depth, seen = [start], [0], {repr(sorted(start.items()))}
    i = 0
    with library(case["lib"]):
        while i < len(states):
            for op in OPS:
                if not possible(op, states[i]):
                    continue
                kind, args = OPS[op]
                restore(states[i])
                end, after, shown = execute(kind, args)
                st.traces += 1
                for fl in FLAGS:
                    for argv in (args + fl, fl + args):
                        if argv[0] == "-verbose" and kind == "s":
                            # the numbers of the structures come first
                            continue
                        restore(states[i])
                        e, got, o = execute(kind, argv)
                        st.traces += 1
                        st.transitions += 1
                        what = "%s in state {%s} (%s progress-bar library)" % (
                            " ".join([{"e": "enumeration.py", "s": "makeStr.py"}[kind]] + argv), ", ".join(sorted(states[i])), "a" if case["lib"] else "no")
                        require(e == end, "%s: ended with %s, without %s with %s" % (what, e, " ".join(fl), end))
                        bad = sorted(f for f in set(got) | set(after) if got.get(f) != after.get(f))
                        require(not bad, "%s: %s" % (what, "; ".join(
                            "%s is %s" % (f, "missing" if f not in got else "written though it is not without the option" if f not in after else
                                          "%s instead of %s" % diff(got[f], after[f])) for f in bad[:3])))
                        lines = o.split("\n")
                        for l in shown.split("\n"):
                            require(l in lines, "%s: no longer shows %r" % (what, l))
                key = repr(sorted(after.items()))
                if key not in seen and depth[i] < case["depth"]:
                    seen.add(key)
                    states.append(after)
                    depth.append(depth[i] + 1)
            st.states += 1
            i += 1
    st.outcome((case["setup"], len(states)))
    st.sample = "%s: %d states" % (setup, len(states))


# ------------------------------------------------------------------ searching
def search(case, st):
    from phenum import msg
    lat, H, c, a = geom.ZOO[case["lat"]], case["H"], case["c"], case["a"]
    ndisp = sum(int(x * y) for x, y in zip(c, a))
    # several thousand labelings per draw are left out
    few = geom.multinomial(c) * 6 ** ndisp > 5000
    todo = [(n, s, r) for s in (True, False) for n, r in ([(2, None), (5, None)] if few else [(1, None), (2, None), (3, None), (None, None), (None, .5), (2, .5)])]
    for n, supers, rate in todo:
        def one():
            wanted = n if n is not None else total
            try:
                return api.enum(lat, H, c, a, wanted, supers, rate)
            except (ValueError, RuntimeError) as e:
                return "%s: %s" % (type(e).__name__, e)
        total = None
        if n is None:
            total = int(api.polya_count(lat, H, c, a))
            if total == 0:
                continue

        def visit(res, ch):
            st.states += 1
            for lib in (False, True):
                with library(lib):
                    for v in LEVELS:
                        msg.set_verbosity(v)
                        with contextlib.redirect_stdout(io.StringIO()):
                            got = choice.scripted(one, ch, case["depth"], maxdom=3)
                        msg.set_verbosity(None)
                        st.traces += 1
                        require(got == res, "%s H=%s concentration %s displaced %s, %s wanted of %s, superperiodic %s, accepting %s, draws %s, %s progress-bar library: "
                                "verbosity %r gives %s, none %s" % (case["lat"], H, c, a, n, total, supers, rate, ch, "a" if lib else "no", v, str(got)[:200], str(res)[:200]))
            st.outcome(str(res))
        msg.set_verbosity(None)
        r, d, _ = choice.explore(one, visit, case["depth"], case["runs"], maxdom=3)
        st.transitions += d
    st.sample = "%s %s %s" % (case["lat"], c, a)


# ------------------------------------------------------------------ the examples
def examples(case, st):
    script = os.path.join(common.REPO, "phenum", case["script"] + ".py")
    env = dict(os.environ, PYTHONPATH=common.REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    first = None
    for given in (False, True):
        if given:
            files.write_lattice_in("lattice.in", geom.ZOO["sc"], [1, 2], 2)
        before = snapshot()
        for extra in ([], ["-verbose"], ["-debug"], ["-polya"] if case["script"] == "enumeration" else ["1"],
                      ["-distribution", "all", "all"] if case["script"] == "enumeration" else ["all", "-species", "Al", "Ni"]):
            for argv in (["-examples"] + extra, extra + ["-examples"]):
                p = subprocess.run([sys.executable, script] + argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=120)
                what = "%s.py %s" % (case["script"], " ".join(argv))
                st.states += 1
                st.traces += 1
                st.transitions += 1
                require(p.returncode == 0, "%s ended with status %d: %s" % (what, p.returncode, p.stderr.strip().split("\n")[-1][:200]))
                require("EXAMPLES" in p.stdout, "%s shows no examples: %r" % (what, p.stdout[:200]))
                require(snapshot() == before, "%s changed %s" % (what, sorted(set(snapshot()) ^ set(before))))
                first = first or p.stdout
                require(p.stdout == first, "%s shows other examples" % what)
                st.outcome((what, given))
    st.sample = "%s: %d lines" % (case["script"], len(first.split("\n")))
