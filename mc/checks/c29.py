"""C29: a step that was interrupted and is run again leaves what an uninterrupted one leaves."""
import builtins
import contextlib
import io
import os
from .. import api, files, geom
from ..common import require
from .c27 import diff, restore, snapshot

BOUNDS = {"quick": "every state of a project (8 set-ups) reached by up to 3 commands out of 12, every command from each, interrupted at every file operation (opening, every "
                   "write, closing, renaming, removing), the data of the file being written lost, torn (4 cuts of the last write) or complete, and run again; steps "
                   "which build what is missing likewise",
          "thorough": "up to 4 commands, every byte of the last write, and a second interruption during the repetition"}
ASSUMPTIONS = ["files closed before the interruption are complete", "CFG files are not among the outputs: they are appended to by design"]
TIMEOUT = 600
SETUPS = [("sc", [1, 3], 2, None, None), ("hcp", [1, 2], 2, None, None), ("sc", [2, 2], 2, [[0, 1, 1], [0, 1, 1]], (0, .5)),
          ("ortho", [2, 3], 2, [[1, 3, 6], [3, 5, 6]], None), ("fcc", [2, 3], 2, [[1, 1, 3], [1, 3, 3]], (1., 0)),
          ("tet", [2, 2], 3, None, None), ("sc_h2", [1, 1], 2, [[0, 1, 1], [0, 1, 1]], (1., 1.)), ("bcc", [1, 3], 3, [[0, 1, 3], [1, 2, 3], [0, 1, 4]], None)]
# the command, the files it makes
OPS = {
    "count": (["-polya"], ["polya.out"]),
    "distribute all": (["-distribution", "all", "all"], ["enum.in"]),
    "distribute 3": (["-distribution", "all", "3", "-seed", "2"], ["enum.in"]),
    "by concentration": (["-distribution", "conc", "4", "-savedist", "-seed", "5", "-outfile", "dist"], ["dist"]),
    "shape, saved": (["-distribution", "shape", "all", "-savedist", "-outfile", "dist"], ["dist"]),
    "shown by size": (["-distribution", "size", "all"], []),
    "enumerate": (["-enum", "-seed", "1"], ["enum.out"]),
    "enumerate super": (["-enum", "-super", "-seed", "1"], ["enum.out"]),
    "enumerate thinned": (["-enum", "-super", "-seed", "4", "-acceptrate", "0.5"], ["enum.out"]),
    "one structure": (["2", "-input", "enum.out"], ["vasp"]),
    "structures": (["1", "3", "-input", "enum.out", "-outfile", "poscar.{}"], ["poscar"]),
    "all structures": (["all", "-input", "enum.out", "-displace", "0.3"], ["vasp"]),
}
ALL = ["polya.out", "enum.in", "enum.out", "dist", "vasp", "poscar", "lattice.in"]


def cases(tier):
    q = tier == "quick"
    out = []
    for i in range(len(SETUPS)):
        for p in range(5 if q else 11):
            out.append({"kind": "steps", "setup": i, "depth": 3 if q else 4, "part": p, "parts": 5 if q else 11, "bytes": not q, "twice": not q})
        out.append({"kind": "build", "setup": i, "bytes": not q})
    return out


# ------------------------------------------------------------------ what a command does to the files
class Out(object):
    def __init__(self, f, name, log):
        self._f, self._name, self._log = f, name, log

    def write(self, data):
        self._log.append(("write", self, data))
        return self._f.write(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        self._f.flush()
        self._log.append(("flush", self, None))

    def close(self):
        if not self._f.closed:
            self._f.close()
            self._log.append(("close", self, None))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


@contextlib.contextmanager
def watched(log):
    """every file that is opened for writing in the working directory, renamed or removed"""
    real, cwd = builtins.open, os.getcwd()

    def here(p):
        try:
            p = os.path.abspath(os.fspath(p))
        except TypeError:
            return None
        return os.path.relpath(p, cwd) if os.path.dirname(p) == cwd else None

    def opened(file, mode="r", *a, **kw):
        name = here(file) if not isinstance(file, int) else None
        f = real(file, mode, *a, **kw)
        if name is None or not set(mode) & set("wax+") or "b" in mode:
            return f
        o = Out(f, name, log)
        log.append(("open", o, mode))
        return o
    saved = {n: getattr(os, n) for n in ("rename", "replace", "remove", "unlink")}

    def two(n):
        def g(a, b, **kw):
            r = saved[n](a, b, **kw)
            log.append(("rename", here(a), here(b)))
            return r
        return g

    def gone(n):
        def g(a, **kw):
            r = saved[n](a, **kw)
            log.append(("remove", here(a), None))
            return r
        return g
    builtins.open = io.open = opened
    for n in saved:
        setattr(os, n, two(n) if n in ("rename", "replace") else gone(n))
    try:
        yield
    finally:
        builtins.open = io.open = real
        for n, f in saved.items():
            setattr(os, n, f)


def cuts(data, every):
    n = len(data)
    return range(1, n) if every else sorted({1, n // 3, n // 2, n - 1} & set(range(1, n)))


def stopped(before, log, every):
    """every state of the directory in which the command may have been stopped"""
    disk, openf, seen, out = dict(before), [], set(), []

    def emit(last=None):
        # what is in the files that are still open
        def go(i, d):
            if i == len(openf):
                k = repr(sorted(d.items()))
                if k not in seen:
                    seen.add(k)
                    out.append(d)
                return
            o, base, data, flushed = openf[i]
            full = "".join(data)
            opts = {flushed, full}
            if o is last and data and len(full) > len(flushed):
                head = full[:len(full) - len(data[-1])]
                opts |= {head + data[-1][:c] for c in cuts(data[-1], every)}
            for t in sorted(opts):
                e = dict(d)
                e[o._name] = base + t
                go(i + 1, e)
        go(0, dict(disk))
    emit()
    for what, o, x in log:
        if what == "open":
            base = disk.get(o._name, "") if "a" in x or "r" in x else ""
            openf.append([o, base, [], ""])
        elif what == "write":
            e = [e for e in openf if e[0] is o]
            if e:
                e[0][2].append(x)
        elif what == "flush":
            e = [e for e in openf if e[0] is o]
            if e:
                e[0][3] = "".join(e[0][2])
        elif what == "close":
            e = [e for e in openf if e[0] is o]
            if e:
                disk[o._name] = e[0][1] + "".join(e[0][2])
                openf.remove(e[0])
        elif what == "rename":
            if o in disk:
                t = disk.pop(o)
                if x is not None:
                    disk[x] = t
        elif what == "remove":
            disk.pop(o, None)
        emit(o if what == "write" else None)
    for e in openf:
        disk[e[0]._name] = e[1] + "".join(e[2])
    return out, disk


def undated(state):
    o = {}
    for f, t in state.items():
        if t.startswith("Random structure enumeration") and "\n" in t:
            t = "Random structure enumeration: DATE\n" + t.split("\n", 1)[1]
        o[f] = t
    return o


def execute(argv, log=None):
    kind = files.cli_enum if argv[0].startswith("-") else files.cli_structures
    with contextlib.redirect_stdout(io.StringIO()), api.shared_groups(), api.shared_cells():
        try:
            if log is None:
                kind(argv)
            else:
                with watched(log):
                    kind(argv)
            return "done"
        except (Exception, SystemExit) as e:
            return "%s: %s" % (type(e).__name__, str(e)[:200])


def mine(f, names):
    return any(f == n or f.startswith(n + ".") for n in names)


def systems(state):
    return [l for l in state.get("enum.in", "").split("\n") if l.strip() and not l.lstrip().startswith("#")]


def ready(op, state):
    argv = OPS[op][0]
    if argv[0] == "-distribution":
        return any(f.startswith("polya.out.") for f in state)
    if argv[0] == "-enum":
        return bool(systems(state))
    if not argv[0].startswith("-"):
        return "enum.out" in state and any(len(l.split()) == 28 for l in state["enum.out"].split("\n"))
    return True


def interrupted(before, op, case, st):
    """runs the command to its end, then from every state in which it may have been stopped"""
    argv, makes = OPS[op]
    restore(before)
    log = []
    end = execute(argv, log)
    after = snapshot()
    st.traces += 1
    states, disk = stopped(before, log, case["bytes"])
    if undated(disk) != after:
        # written in a way that is not seen here: prefixes of what it left
        states = []
        d = dict(before)
        for f in sorted(after):
            if after[f] != before.get(f):
                for k in range(0, len(after[f]), max(1, len(after[f]) // 40)):
                    states.append(dict(d, **{f: after[f][:k]}))
                d[f] = after[f]
    for s in states:
        where = "%s, stopped when the directory held {%s}" % (" ".join(argv), ", ".join(
            "%s (%d characters)" % (f, len(t)) if t != before.get(f) else f for f, t in sorted(s.items())))
        for f in before:
            require(s.get(f) == before[f] or mine(f, makes), "%s: %s was damaged, it is none of the files made" % (where, f))
        restore(s)
        again = [] if case.get("twice") else None
        e = execute(argv, again)
        got = snapshot()
        st.traces += 1
        st.transitions += 1
        msg = compare(after, got, end, e)
        require(not msg, "%s: run again, %s" % (where, msg))
        if again is not None:
            more, _ = stopped(s, again, False)
            for t in more[:: max(1, len(more) // 12)]:
                restore(t)
                e = execute(argv)
                msg = compare(after, snapshot(), end, e)
                st.traces += 1
                st.transitions += 1
                require(not msg, "%s: stopped a second time and run again, %s" % (where, msg))
    st.states += len(states)
    return end, after


def compare(after, got, end, e):
    if e != end:
        return "it ends with %s instead of %s" % (e, end)
    for f in sorted(set(after) | set(got)):
        if got.get(f) != after.get(f) and mine(f, ALL):
            return "%s is %s" % (f, "missing" if f not in got else "there though it should not" if f not in after else "%s instead of %s" % diff(got[f], after[f]))
    return None


def explore(case, st):
    name, sizes, k, rows, fr = setup = SETUPS[case["setup"]]
    for f in os.listdir("."):
        os.remove(f)
    files.write_lattice_in("lattice.in", geom.ZOO[name], sizes, k, rows, fr)
    globals()[case["kind"]](case, st, setup, snapshot())


def steps(case, st, setup, start):
    states, depth, seen = [start], [0], {repr(sorted(start.items()))}
    i = n = 0
    while i < len(states):
        for op in OPS:
            if not ready(op, states[i]):
                continue
            n += 1
            if n % case["parts"] == case["part"]:
                end, after = interrupted(states[i], op, case, st)
            else:
                restore(states[i])
                end = execute(OPS[op][0])
                after = snapshot()
            key = repr(sorted(after.items()))
            if key not in seen and depth[i] < case["depth"]:
                seen.add(key)
                states.append(after)
                depth.append(depth[i] + 1)
        i += 1
    st.outcome((case["setup"], case["part"], len(states)))
    st.sample = "%s: %d states, %d commands" % (setup, len(states), n)


# ------------------------------------------------------------------ building what is missing
def build(case, st, setup, start):
    """a step for which the tables or the list are missing makes them first"""
    restore(start)
    execute(OPS["count"][0])
    tables = {f: t for f, t in snapshot().items() if mine(f, ["polya.out"])}
    require(tables, "-polya left no tables")
    for op, extra in (("distribute all", ["polya.out"]), ("distribute 3", ["polya.out"]), ("enumerate", ["polya.out", "enum.in"]), ("enumerate super", ["polya.out", "enum.in"])):
        argv, makes = OPS[op]
        for first in ((start,) if argv[0] == "-distribution" else (start, dict(start, **tables))):
            OPS["*"] = (argv, makes + extra)
            try:
                interrupted(first, "*", case, st)
            finally:
                del OPS["*"]
    st.outcome((case["setup"], "build"))
    st.sample = "%s: %d tables" % (setup, len(tables))
