"""Runner shared by all checks: parallel exploration, replay files, evidence.

A check module defines

    PROPERTY, LEVEL, ASSUMPTIONS
    def cases(tier): -> iterable of JSON-able case descriptions (dicts)
    def explore(case): -> Stats      (raises Violation)

`explore` runs the real code on every behaviour of the bounded space described
by the case.  The runner distributes the cases over processes, turns any
exception, exit() or missing termination of the code under test into a
violation, writes replay files and the evidence file.
"""
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "150"))
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAXV", "12"))
WORKERS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, msg, key=None, detail=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class Stats(object):
    """What one case explored."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.sample = None
        self.violations = []          # (key, msg, detail)
        self.notes = {}               # key -> msg

    def violate(self, msg, key=None, detail=None):
        if len(self.violations) < 5:
            self.violations.append((key, msg, detail))

    def known(self, key, msg):
        """A failure identified as `key`: a violation unless known_findings.txt
        lists it; the exploration goes on either way."""
        self.notes.setdefault(key, msg)

    def outcome(self, x):
        if len(self.outcomes) < 2000:
            self.outcomes.add(hashlib.md5(repr(x).encode()).hexdigest()[:12])

    def pack(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=sorted(self.outcomes), sample=self.sample,
                    violations=self.violations, notes=sorted(self.notes.items()))


def require(cond, msg, key=None, detail=None):
    if not cond:
        raise Violation(msg, key, detail)


def setup_import():
    """Make `phenum` importable from the tree under test, nothing else."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    from . import choice
    choice.install()
    import warnings
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    # what belongs to the package's environment, not to the code under test:
    # imported (and byte-compiled, fonts cached...) before any timer runs
    import numpy  # noqa


@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


def _alarm(signum, frame):
    raise CaseTimeout()


@contextlib.contextmanager
def time_limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_MOD = None
_ROOT = None


def _init_worker(modname, root):
    global _MOD, _ROOT
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    setup_import()
    _MOD = importlib.import_module(modname)
    _ROOT = root
    _wd()


def _wd():
    d = os.path.join(_ROOT, "w%d" % os.getpid())
    if not os.path.isdir(d):
        os.makedirs(d)
    os.chdir(d)


def run_case(mod, case, timeout=None):
    st = Stats()
    timeout = timeout or getattr(mod, "TIMEOUT", CASE_TIMEOUT)
    t0 = time.time()
    try:
        with time_limit(timeout), quiet():
            mod.explore(case, st)
    except Violation as v:
        st.violate(v.msg, v.key, v.detail)
    except CaseTimeout:
        st.violate("no answer within %ds: the code under test does not terminate "
                   "(or became far slower)" % timeout, "timeout")
    except SystemExit as e:
        st.violate("the code under test called exit(%s)\n%s"
                   % (e.code, traceback.format_exc(limit=-4)), "exit")
    except RecursionError as e:
        st.violate("recursion limit: %s" % e, "recursion")
    except Exception as e:
        st.violate("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)),
                   "exception")
    out = st.pack()
    out["case"] = case
    out["wall"] = time.time() - t0
    return out


def _work(batch):
    _wd()
    out = []
    for c in batch:
        try:
            r = run_case(_MOD, c)
        finally:
            _wd()
        out.append(r)
        if r["violations"]:
            break
    return out


def load_findings():
    """known_findings.txt -> {(property, key): text}; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(prop, key)] = parts[3] if len(parts) > 3 else ""
    return out


def write_replay(prop, case, key, msg, detail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([case, key], sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump({"property": prop, "case": case, "key": key, "message": msg, "detail": detail,
                   "replay": "bash %s/run.sh %s --replay %s" % (VERIF, prop, p)}, f, indent=1,
                  default=str)
    return p


def run_check(prop, tier, seed, jobs=None):
    modname = "mc.checks.%s" % prop.lower()
    setup_import()
    mod = importlib.import_module(modname)
    t0 = time.time()
    cases = list(mod.cases(tier))
    jobs = jobs or WORKERS
    root = tempfile.mkdtemp(prefix="verif-mc-")
    tot = Stats()
    allout = set()
    samples = []
    viols = []
    findings = load_findings()
    seen_findings = {}
    slow = []
    died = None
    done = 0
    try:
        bs = getattr(mod, "BATCH", 1)
        batches = [cases[i:i + bs] for i in range(0, len(cases), bs)]
        ctx = mp.get_context("fork")
        ex = cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker,
                                    initargs=(modname, root))
        try:
            futs = [ex.submit(_work, b) for b in batches]
            for f in cf.as_completed(futs):
                for r in f.result():
                    done += 1
                    tot.states += r["states"]
                    tot.transitions += r["transitions"]
                    tot.traces += r["traces"]
                    allout.update(r["outcomes"])
                    slow.append((r["wall"], r["case"]))
                    if r["sample"] is not None and len(samples) < 6:
                        samples.append({"case": r["case"], "observed": r["sample"]})
                    for (k, m, d) in r["violations"]:
                        viols.append((r["case"], k, m, d))
                    for (k, m) in r["notes"]:
                        if (prop, k) in findings:
                            seen_findings[(prop, k)] = findings[(prop, k)]
                        else:
                            viols.append((r["case"], k, m, None))
                if len(viols) >= MAX_VIOLATIONS:
                    break
        except cf.process.BrokenProcessPool as e:
            died = str(e)
        finally:
            procs = list(getattr(ex, "_processes", {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                if len(viols) >= MAX_VIOLATIONS or died:
                    p.terminate()
            for p in procs:
                p.join(20)
                if p.is_alive():
                    p.kill()
    finally:
        os.chdir(VERIF)
        shutil.rmtree(root, ignore_errors=True)
    if died:
        viols.append(({"worker": "died"}, "worker-died",
                      "a worker process was killed by the code under test: %s" % died, None))
    bad = []
    for (case, k, m, d) in viols:
        fk = (prop, k)
        if k is not None and fk in findings:
            seen_findings[fk] = findings[fk]
        else:
            bad.append((case, k, m, d))
    for fk, text in sorted(seen_findings.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    complete = done == len(cases) and not died
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"states": tot.states, "transitions": tot.transitions,
           "traces_validated_against_impl": tot.traces,
           "distinct_outcomes": len(allout), "cases": done, "cases_total": len(cases),
           "exhaustive": bool(complete), "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
           "samples": samples}
    cov.update(getattr(mod, "EXTRA", {}))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d states, %d transitions, %d runs of the implementation, "
          "%d distinct outcomes, %.1fs" % (prop, tier, done, tot.states, tot.transitions,
                                           tot.traces, len(allout), time.time() - t0))
    if os.environ.get("VERIF_SLOW"):
        for w, c in sorted(slow, key=lambda x: -x[0])[:12]:
            print("   %.1fs %s" % (w, json.dumps(c, default=str)[:160]))
    if bad:
        shown = set()
        for (case, k, m, d) in bad[:5]:
            p = write_replay(prop, case, k, m, d)
            if p in shown:
                continue
            shown.add(p)
            print("  case %s\n  %s" % (json.dumps(case, default=str)[:300], str(m)[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if not complete:
        print("internal error: %d of %d cases ran" % (done, len(cases)))
        return 3
    return 0


def replay(prop, path):
    setup_import()
    mod = importlib.import_module("mc.checks.%s" % prop.lower())
    r = json.load(open(path))
    root = tempfile.mkdtemp(prefix="verif-mc-")
    os.chdir(root)
    try:
        out = run_case(mod, r["case"])
    finally:
        os.chdir(VERIF)
        shutil.rmtree(root, ignore_errors=True)
    out["violations"] += [(k, m, None) for (k, m) in out["notes"] if (prop, k) not in load_findings()]
    for (k, m, d) in out["violations"]:
        print(m)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not out["violations"]:
        print("no violation: %s" % out["sample"])
    return 1 if out["violations"] else 0
