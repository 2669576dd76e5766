#!/usr/bin/env python3
"""seed.py ID...: confirms planted bugs in a scratch copy of /repo (/tmp/sw/repo) and runs the check of their property there.
   --check-only: skip the repository's build and tests.  --all: every seeded bug."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw"; R = W + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(W, exist_ok=True)
if not os.path.isdir(R): sh("cp -a /repo %s && rm -rf %s/_build" % (R, R))
for n in ("build.sh", "test.sh"):
    s = open("/opt/vp/" + n).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh")
    open(W + "/" + n, "w").write(s)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
if "--all" in sys.argv: args = sorted(os.listdir(V + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in args:
    d = os.environ.get("SEEDED", V + "/seeded") + "/" + i
    meta = json.load(open(d + "/meta.json"))
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (R, R))
    res = [i, meta["property"]]
    p = sh("git -C %s apply %s/patch.diff" % (R, d))
    if p.returncode: print(i, "DOES NOT APPLY", p.stdout); continue
    if "--check-only" not in sys.argv:
        p = sh("bash %s/test.sh %s/o.json" % (W, W))
        o = set(json.load(open(W + "/o.json"))["passed"])
        res.append("tests:%s" % ("ok" if base <= o else "FAIL " + str(sorted(base - o)[:3])))
        dm = sh("bash %s/demo.sh" % d, cwd=R)
        sh("git -C %s apply -R %s/patch.diff" % (R, d))
        d0 = sh("bash %s/demo.sh" % d, cwd=R)
        res.append("demo:%s" % ("ok" if dm.returncode and not d0.returncode else "BAD bug=%d clean=%d %s" % (dm.returncode, d0.returncode, (d0.stdout + dm.stdout)[:400])))
        sh("git -C %s apply %s/patch.diff" % (R, d))
    for pid in [meta["property"]] + [a[8:] for a in sys.argv if a.startswith("--check=")]:
        c = sh("python3 %s/check.py %s quick" % (V, pid), env=dict(os.environ, VERIF_REPO=R))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "CHECK-ERROR" in l]
        res.append("%s:%s" % (pid, "caught" if c.returncode == 1 else "MISSED" if c.returncode == 0 else "ERROR " + c.stdout[:300]))
    sh("git -C %s checkout -q -f FETCH_HEAD" % R)
    print(" | ".join(res), flush=True)
