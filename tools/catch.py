"""Run the check of every planted bug's property (or CHECKS given after --) on a scratch copy with the bug applied.
    python3 tools/catch.py [ID...] [-- C01 C02]"""
import json, os, shutil, subprocess, sys, glob, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
chk = a[a.index("--") + 1:] if "--" in a else None
ids = (a[:a.index("--")] if "--" in a else a) or sorted(os.path.basename(d) for d in glob.glob(ROOT + "/seeded/*"))
for i in ids:
    d = ROOT + "/seeded/" + i
    tree = "/tmp/catch/" + i
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs("/tmp/catch", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", tree])
    subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=tree)
    for c in chk or [json.load(open(d + "/meta.json"))["property"]]:
        t = time.time()
        r = subprocess.run(["bash", ROOT + "/run.sh", c, "quick"], env=dict(os.environ, VERIF_REPO=tree), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode().strip().split("\n")
        print("%s %s %s rc=%d %.0fs  %s" % (i, c, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION property=" + c) for l in o) else "missed", r.returncode, time.time() - t, o[0][:160]), flush=True)
    shutil.rmtree(tree, ignore_errors=True)
