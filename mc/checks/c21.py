"""C21: a fixed seed fixes the result."""
import glob
import os
import random
import subprocess
import sys
from itertools import permutations
from .. import api, files, geom
from ..common import REPO, require

BOUNDS = {"quick": "14 steps (distributions, subsets, guessed structures, displacements, acceptance rates, whole workflows; seeds 0, 1, 12345), each "
                   "after 6 histories of random numbers and 3 other steps, with every order (up to 120) of the directory listing, and in "
                   "fresh interpreters with 3 string hash seeds and two listing orders",
          "thorough": "more seeds and 720 listing orders, 8 hash seeds"}
ASSUMPTIONS = ["seeds are given with -seed"]
TIMEOUT = 500

_listdir, _glob, _scandir = os.listdir, glob.glob, os.scandir
_order = [None]


def _arrange(names):
    names = sorted(names)
    return names if _order[0] is None else _order[0](names)


def listdir(*a):
    return _arrange(_listdir(*a))


def globbed(*a, **k):
    return _arrange(_glob(*a, **k))


os.listdir, glob.glob = listdir, globbed

# name, lattice, sizes, species, ranges, displaced, systems (None: from the tables), command
JOBS = {
    "dist-all": ("fcc", [1, 4], 2, None, None, None, ["-distribution", "all", "7"]),
    "dist-all-1": ("sc", [1, 3], 2, None, None, None, ["-distribution", "all", "1"]),
    "dist-shape": ("hex", [1, 4], 2, None, None, None, ["-distribution", "shape", "5", "-savedist"]),
    "dist-conc": ("sc", [1, 3], 3, None, None, None, ["-distribution", "conc", "9", "-savedist"]),
    "dist-size": ("bcc", [1, 4], 2, None, None, None, ["-distribution", "size", "6", "-savedist"]),
    "dist-sizes": ("fcc", [1, 5], 2, None, None, None, ["-distribution", "all", "6", "-sizes", "2", "5"]),
    "subset": ("fcc", [6, 6], 2, None, None, [((1, 0, 1, 0, 0, 6), (3, 3), 2), ((1, 0, 2, 0, 0, 3), (2, 4), 2)], ["-enum", "-super"]),
    "subset-prim": ("sc", [6, 6], 2, None, None, [((1, 0, 1, 0, 0, 6), (3, 3), 2), ((1, 0, 1, 0, 1, 6), (2, 4), 1)], ["-enum"]),
    "ternary": ("tri", [6, 6], 3, None, None, [((1, 0, 1, 0, 0, 6), (2, 2, 2), 5)], ["-enum"]),
    "arrows": ("sc", [4, 4], 2, [[0, 1, 1], [0, 1, 1]], (.5, 0), [((1, 0, 1, 0, 0, 4), (2, 2), 4), ((1, 0, 2, 0, 0, 2), (2, 2), 3)], ["-enum"]),
    "accept": ("tri", [8, 8], 2, None, None, [((1, 0, 1, 0, 0, 8), (4, 4), 14)], ["-enum", "-super", "-acceptrate", "0.5"]),
    "guess": ("sc", [18, 18], 3, None, None, [((1, 0, 1, 0, 0, 18), (6, 6, 6), 5)], ["-enum"]),
    "guess-arrows": ("sc", [12, 12], 2, [[0, 1, 1], [0, 1, 1]], (0, 1.0), [((1, 0, 1, 0, 0, 12), (10, 2), 4)], ["-enum"]),
    "guess-unary": ("sc", [12, 12], 1, [[0, 1, 1]], (.25,), [((1, 0, 1, 0, 0, 12), (12,), 3)], ["-enum"]),
    "whole": ("fcc", [1, 4], 2, None, None, None, ["-enum", "-distribution", "all", "6"]),
    "whole-super": ("hcp", [1, 2], 2, None, None, None, ["-enum", "-distribution", "all", "5", "-super"]),
}


def cases(tier):
    q = tier == "quick"
    out = []
    for name in sorted(JOBS):
        for seed in (0, 1, 12345) if q else (0, 1, 2, 3, 12345, 2 ** 40, 99, 7):
            out.append({"job": name, "seed": seed, "orders": 120 if q else 720})
        for h in ("0", "1", "77") if q else ("0", "1", "2", "3", "77", "1000", "4242", "31337"):
            out.append({"job": name, "seed": 1, "hash": h})
    return out


def clear():
    for f in _listdir("."):
        os.remove(f)


def prepare(job, tables):
    name, sizes, k, rows, fr, systems, argv = job
    clear()
    lat = geom.ZOO[name]
    files.write_lattice_in("lattice.in", lat, sizes, k, rows, fr)
    if systems is not None:
        with open("enum.in", "w") as f:
            f.write("# HNF Conc. Number\n")
            for h, c, n in systems:
                f.write("  %s    %s   %d\n" % (" ".join(map(str, h)), " ".join(map(str, c)), n))
    elif tables:
        for t, text in tables.items():
            with open(t, "w") as f:
                f.write(text)


def result():
    out = {}
    for f in sorted(_listdir(".")):
        t = open(f).read()
        if t.startswith("Random structure enumeration"):
            t = t.split("\n", 1)[1]
        out[f] = t
    return out


def histories():
    def eat(n, s=None):
        def f():
            random.seed(s if s is not None else 5)
            for _ in range(n):
                random.random()
        return f
    yield "0 numbers", eat(0)
    yield "1 number", eat(1)
    yield "2 numbers of another seed", eat(2, 11)
    yield "1000 numbers", eat(1000)
    yield "shuffles", lambda: [random.shuffle(list(range(9))) for _ in range(3)]
    yield "unseeded", lambda: random.seed()


def orders(limit):
    """ways to list n names: every permutation of the first ones, and rotations and reversal of all"""
    yield "reversed", lambda x: x[::-1]
    for r in (1, 2, 3):
        yield "rotated by %d" % r, lambda x, r=r: x[r:] + x[:r]
    n = 0
    for p in permutations(range(6)):
        if n >= limit:
            return
        n += 1

        def f(x, p=p):
            m = len(x)
            q = [i for i in p if i < m] + list(range(len(p), m))
            return [x[i] for i in q]
        yield "order %s" % (p,), f


def explore(case, st):
    job = JOBS[case["job"]]
    seed = ["-seed", str(case["seed"])]
    argv = job[6] + seed
    tables = None
    if job[5] is None:
        prepare(job, None)
        with api.shared_groups():
            files.cli_enum(["-polya"])
        tables = {f: t for f, t in result().items() if f.startswith("polya")}
    if "hash" in case:
        return fresh(case, job, argv, tables, st)

    def run():
        prepare(job, tables)
        with api.shared_groups():
            files.cli_enum(argv)
        st.traces += 1
        st.transitions += 1
        return result()
    random.seed(4321)
    ref = run()
    st.outcome(sorted(ref.items()))

    def same(how):
        got = run()
        st.states += 1
        if got != ref:
            f = [x for x in sorted(set(got) | set(ref)) if got.get(x) != ref.get(x)][0]
            require(False, "%s with seed %s, %s: %s differs\n%s\n---\n%s" %
                    (" ".join(job[6]), case["seed"], how, f, str(ref.get(f))[-600:], str(got.get(f))[-600:]))
    same("again")
    for how, h in histories():
        h()
        same("after drawing " + how)
    for other in ("subset", "dist-shape", "guess-arrows"):
        o = JOBS[other]
        prepare(o, None)
        if o[5] is None:
            for f, t in (tables or {}).items():
                open(f, "w").write(t)
        if o[5] is not None or tables:
            with api.shared_groups():
                files.cli_enum(o[6] + ["-seed", "3"])
            same("after %s" % other)
    if tables:
        try:
            for how, f in orders(case["orders"] if "-enum" not in argv else case["orders"] // 10):
                _order[0] = f
                same("directory %s" % how)
        finally:
            _order[0] = None
    st.sample = "%s seed %s: %s" % (argv, case["seed"], sorted(ref))


CHILD = """
import os, sys, random, glob, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, %r)
flip = %r
ol, og = os.listdir, glob.glob
os.listdir = lambda *a: sorted(ol(*a), reverse=flip)
glob.glob = lambda *a, **k: sorted(og(*a, **k), reverse=flip)
from phenum import enumeration
args = enumeration._parser_options()
enumeration._script_enum(args)
"""


def fresh(case, job, argv, tables, st):
    """a new interpreter per run: string hashing and listing order differ"""
    res = []
    for flip, h in ((False, "5"), (False, case["hash"]), (True, case["hash"])):
        prepare(job, tables)
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", CHILD % (REPO, flip)] + argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300)
        require(p.returncode == 0, "%s in a new interpreter:\n%s" % (argv, p.stdout.decode()[-1500:]))
        res.append(result())
        st.traces += 1
        st.states += 1
    for r in res[1:]:
        require(r == res[0], "%s with seed %s, hash seed %s: the files differ: %s" % (argv, case["seed"], case["hash"], diff(res[0], r)))
    st.sample = "%s in 3 interpreters" % argv


def diff(a, b):
    return [(f, str(a.get(f))[-300:], str(b.get(f))[-300:]) for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)][:1]
