"""Author a planted bug: applies an edit to a scratch copy of /repo, runs the stable tests there and the demo on
both trees, and keeps it under seeded/<id>/ when the tests pass and the demo tells the trees apart.

    python3 tools/plant.py SPEC.py [ID...]     SPEC.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new[, nth])], demo)}
"""
import json, os, shutil, subprocess, sys, runpy, glob
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONPATH="/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR="/opt/vp/mpl", PATH="/opt/venv/bin:" + os.environ["PATH"])


def passed(tree, rep):
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "--tb=no", "-p", "no:cacheprovider", "-p", "phenum_cwd", "--timeout=180",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + rep], cwd=tree, env=ENV,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok, bad = set(), set()
    for c in ET.parse(rep).getroot().iter("testcase"):
        name = "::".join(x for x in (c.get("classname"), c.get("name")) if x)
        good = c.find("failure") is None and c.find("error") is None and c.find("skipped") is None
        (ok if good else bad).add(name)
    return ok - bad


def one(i, b):
    tree = "/tmp/pl/" + i
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", tree])
    try:
        for e in b["edits"]:
            p = os.path.join(tree, e[0])
            s = open(p).read()
            n = s.count(e[1])
            nth = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and nth is None):
                return "%s: edit text occurs %d times in %s: %s" % (i, n, e[0], e[1][:60])
            if nth is None:
                s = s.replace(e[1], e[2])
            else:
                parts = s.split(e[1])
                s = e[1].join(parts[:nth + 1]) + e[2] + e[1].join(parts[nth + 1:])
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "diff"], cwd=tree).decode()
        d = os.path.join("/tmp/pl", i + ".new")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write("import os\nimport sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = {k: v for k, v in ENV.items() if k != "PYTHONPATH"}
        r = [subprocess.run(["bash", d + "/demo.sh"], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300) for t in ("/repo", tree)]
        if r[0].returncode != 0 or r[1].returncode == 0:
            return "%s: DEMO unchanged=%d patched=%d\n%s\n---\n%s" % (i, r[0].returncode, r[1].returncode, r[0].stdout.decode()[-1500:], r[1].stdout.decode()[-800:])
        lost = STABLE - passed(tree, "/tmp/pl/%s.xml" % i)
        if lost:
            return "%s: TESTS lost %d: %s" % (i, len(lost), sorted(lost)[:4])
        dst = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.move(d, dst)
        return "%s: kept  (%s)" % (i, r[1].stdout.decode().strip().split("\n")[-1][:150])
    finally:
        shutil.rmtree(tree, ignore_errors=True)


bugs = runpy.run_path(sys.argv[1])["BUGS"]
ids = sys.argv[2:] or sorted(bugs)
os.makedirs("/tmp/pl", exist_ok=True)
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    def safe(i):
        try:
            return one(i, bugs[i])
        except Exception as e:
            return "%s: %r" % (i, e)
    for r in ex.map(safe, ids):
        print(r, flush=True)
