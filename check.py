#!/usr/bin/env python3
"""check.py <ID>: decides one property on /repo's current working tree.

Builds the property's harness programs against /repo/include under the sanitizers, runs their
workload in parallel shards (bounded by case count, seeded by VERIF_SEED), attributes crashes and
hangs to cases, matches violations against KNOWN_FINDINGS.txt, writes evidence/<ID>.json.
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself could not run.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "clang++"
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-w"]
FLAVOUR = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "asan0": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "ubsan": ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "msan": ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"],
    "plain": ["-O2"],
    "memcheck": ["-O1"],
    "counting": ["-O1", "-fsanitize-coverage=trace-pc", "-fno-builtin", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:hard_rss_limit_mb=2500:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4",
    "LSAN_OPTIONS": "exitcode=67",
}
MEMCHECK = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--leak-check=no"]
NSHARD = 8
MAX_CRASHES = 3


def fail(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def compile_all(pid, runs, bdir):
    jobs, bins = [], {}
    for ri, r in enumerate(runs):
        out = os.path.join(bdir, "%s.%d" % (r["name"], ri))
        bins[ri] = out
        flags = list(BASE) + FLAVOUR[r.get("flavour", "asan")] + r.get("flags", [])
        objs = []
        for tu in r["tus"]:
            src, extra, opt = (tu, [], {}) if isinstance(tu, str) else (tuple(tu) + ({},))[:3]
            base = BASE if opt.get("bare") else flags  # bare: without the run's sanitizers
            obj = "%s.%d.o" % (out, len(objs))
            objs.append(obj)
            jobs.append((ri, [opt.get("cxx", r.get("cxx", CXX))] + base + extra + ["-c", os.path.join(VERIF, "harness", src), "-o", obj]))
        r["_link"] = [r.get("cxx", CXX)] + FLAVOUR[r.get("flavour", "asan")] + r.get("flags", []) + objs + ["-lpthread", "-o", out]

    def one(j):
        p = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, j, p.stdout
    with cf.ThreadPoolExecutor(NSHARD) as ex:
        for rc, j, o in ex.map(one, jobs):
            if rc != 0 and runs[j[0]].get("optional"):
                bins.pop(j[0], None)  # runs on a stand-in that may lack what the code uses
            elif rc != 0:
                fail("cannot compile %s:\n%s" % (j[1][-3], o[-4000:]))
        for rc, j, o in ex.map(one, [(ri, r["_link"]) for ri, r in enumerate(runs) if ri in bins]):
            if rc != 0:
                fail("cannot link %s:\n%s" % (j[1][-1], o[-4000:]))
    return bins


def crash_key(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: hard rss limit exhausted", err)
    if "hard rss limit" in err:
        return "crash:memory-runaway"
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "crash:assert:" + m.group(1)[:120]
    m = re.search(r"ERROR: LeakSanitizer", err)
    if m:
        return "crash:leak"
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "crash:tsan:" + m.group(1).strip()
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "crash:asan:" + m.group(1)
    m = re.search(r"WARNING: MemorySanitizer: ([\w-]+)", err)
    if m:
        return "crash:msan:" + m.group(1)
    m = re.search(r"==\d+== (Conditional jump or move depends on uninit|Use of uninit|Invalid \w+|Syscall param \S+|Mismatched free|Source and destination overlap)", err)
    if m:
        return "crash:memcheck:" + m.group(1).replace(" ", "-")
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "crash:ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:100]
    m = re.search(r"terminate called|uncaught exception|terminating", err)
    if m:
        return "crash:exception"
    return "crash:rc%d" % rc


def frames(err):
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+).*?(?:json_struct(?:_diff)?\.h):(\d+)", err)
    return [f[0].split("(")[0][-60:] + ":" + f[1] for f in fr[:4]]


class Shard:
    def __init__(self, binp, run, ri, k, bdir, seed, count, tier):
        self.binp, self.run, self.ri, self.k, self.bdir = binp, run, ri, k, bdir
        self.seed, self.count, self.tier = seed, count, tier
        self.n = run.get("shards", NSHARD)
        self.res = {"eval": 0, "counters": {}, "samples": [], "distinct": set(), "viol": [], "incomplete": 0, "inconclusive": []}

    def cmd(self, start, only=None, hang=None):
        c = self.run.get("wrap", []) + [self.binp, "--seed", str(self.seed), "--count", str(self.count)]
        if only is None:
            c += ["--start", str(start), "--step", str(self.n)]
        else:
            c += ["--only", str(only)]
        if hang:
            c += ["--hang", str(hang)]
        if self.tier == "thorough":
            c += ["--thorough"]
        return c + self.run.get("args", [])

    def go(self):
        start = self.k
        crashes = 0
        env = dict(os.environ)
        env.update(ENV)
        env.update(self.run.get("env", {}))
        while start < self.count:
            tag = "%d.%d.%d" % (self.ri, self.k, start)
            out = os.path.join(self.bdir, "out." + tag)
            st = os.path.join(self.bdir, "state." + tag)
            err = os.path.join(self.bdir, "err." + tag)
            for f in (out, st):
                if os.path.exists(f):
                    os.unlink(f)
            with open(err, "w") as ef:
                p = subprocess.Popen(self.cmd(start) + ["--out", out, "--state", st], stdout=ef, stderr=ef, env=env)
                try:
                    rc = p.wait(timeout=self.run.get("timeout", 3000))
                    to = False
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc, to = -9, True
            done = self.parse(out)
            etext = open(err, errors="replace").read()
            if done and rc == 0:
                return self.res
            if done and "LeakSanitizer" in etext:
                key = "crash:leak"
                fr = re.findall(r"in (JS::[^\s(]+)", etext)
                self.res["viol"].append((key, None, "leak at exit; " + " < ".join(fr[:6]), self.cmd(start)))
                return self.res
            cur = int.from_bytes(open(st, "rb").read(8), "little") if os.path.exists(st) and os.path.getsize(st) == 8 else None
            if cur is None or (cur == 0 and not etext and not to):
                if not etext:
                    self.res["inconclusive"].append("shard %s ended with %d before its first case" % (tag, rc))
                    return self.res
                cur = start if cur is None else cur
            if to:
                self.res["inconclusive"].append("shard %s exceeded its wall-clock watchdog at case %s" % (tag, cur))
                return self.res
            if rc == 77:  # one case used its CPU budget: re-run it alone with three times the budget
                p = subprocess.run(self.cmd(0, only=cur, hang=60) + ["--out", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
                if p.returncode == 77:
                    self.res["viol"].append(("hang", cur, "case %d does not terminate within 60 s of CPU time" % cur, self.cmd(0, only=cur)))
                elif p.returncode != 0:
                    self.res["viol"].append((crash_key(p.returncode, p.stdout.decode(errors="replace")), cur, p.stdout.decode(errors="replace")[-1500:], self.cmd(0, only=cur)))
                else:
                    self.res["inconclusive"].append("case %d slow once, fine when repeated" % cur)
            elif rc == -9:
                self.res["inconclusive"].append("shard %s was killed" % tag)
                return self.res
            else:
                self.res["viol"].append((crash_key(rc, etext), cur, " < ".join(frames(etext)) + " | " + etext[:1800], self.cmd(0, only=cur)))
            crashes += 1
            if crashes >= MAX_CRASHES:
                self.res["incomplete"] += 1
                return self.res
            # continue behind the failing case
            start = cur + self.n
        return self.res

    def parse(self, out):
        done = False
        if not os.path.exists(out):
            return False
        with open(out, errors="replace") as f:
            for line in f:
                c = line.rstrip("\n").split("\t")
                if c[0] == "V" and len(c) >= 4:
                    self.res["viol"].append((c[2], int(c[1]), c[3], self.cmd(0, only=int(c[1]))))
                elif c[0] == "E":
                    self.res["eval"] += int(c[1])
                elif c[0] == "C":
                    self.res["counters"][c[1]] = self.res["counters"].get(c[1], 0) + int(c[2])
                elif c[0] == "X":
                    self.res["samples"].append(c[1] if len(c) > 1 else "")
                elif c[0] == "D":
                    self.res["distinct"].add(int(c[1], 16))
                elif c[0] == "DONE":
                    done = True
        os.unlink(out)
        return done


def load_known():
    known = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        fail("usage: check.py <ID>; known ids: " + " ".join(sorted(CHECKS)))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    C = CHECKS[pid]
    runs = [dict(r, wrap=MEMCHECK) if r.get("flavour") == "memcheck" else dict(r) for r in C["runs"] if tier == "thorough" or not r.get("thorough_only")]
    bdir = os.path.join(VERIF, "build", "%s-%s-%d" % (pid, tier, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        rc = decide(pid, tier, seed, t0, C, runs, bdir)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, t0, C, runs, bdir):
    if not os.path.exists(REPO + "/include/json_struct/json_struct.h"):
        fail("no library headers in " + REPO)
    bins = compile_all(pid, runs, bdir)
    t_build = time.time() - t0
    shards = []
    skipped = [r["name"] + " does not build with the stand-in and was left out" for ri, r in enumerate(runs) if ri not in bins]
    for ri, r in enumerate(runs):
        if ri not in bins:
            continue
        count = r["quick"] if tier == "quick" else r["thorough"]
        for k in range(min(r.get("shards", NSHARD), count)):
            shards.append(Shard(bins[ri], r, ri, k, bdir, seed + 7919 * ri, count, tier))
    with cf.ThreadPoolExecutor(NSHARD) as ex:
        results = list(ex.map(lambda s: s.go(), shards))
    ev = sum(r["eval"] for r in results)
    distinct = set()
    counters, samples, viol, inconc = {}, [], [], skipped
    for s, r in zip(shards, results):
        distinct |= {(s.run["name"], h) for h in r["distinct"]}
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for x in r["samples"][:1]:
            samples.append(x)
        for v in r["viol"]:
            viol.append((s, v))
        inconc += r["inconclusive"]
    known = [k for k in load_known() if k[0] == pid]
    hit_known, new = {}, []
    for s, v in viol:
        m = next((k for k in known if k[1] == v[0]), None)
        if m:
            hit_known[m[1]] = m
        else:
            new.append((s, v))
    for k in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    # a monitor that observed too little decides nothing
    for cname, least in C.get("require", {}).items():
        got = counters.get(cname, 0) if cname != "evaluations" else ev
        if got < least and not new:
            inconc.append("observed only %d %s, needs %d" % (got, cname, least))
            print("INCONCLUSIVE: " + inconc[-1])
            write_evidence(pid, tier, seed, C, ev, distinct, counters, samples, inconc, t0, t_build, 0)
            return 2
    write_evidence(pid, tier, seed, C, ev, distinct, counters, samples, inconc, t0, t_build, len(new))
    if new:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        keys = {}
        for s, v in new:
            keys.setdefault(v[0], []).append((s, v))
        first = None
        for i, (k, l) in enumerate(sorted(keys.items())):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            s, v = l[0]
            json.dump({"property": pid, "key": k, "seed": seed, "tier": tier, "case": v[1], "witness": v[2],
                       "occurrences": len(l), "harness": s.run["name"],
                       "replay": "VERIF_KEEP=1 VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s, then in build/: %s" % (seed, tier, pid, " ".join(v[3]))},
                      open(path, "w"), indent=1)
            print("  %s (case %s, %d times): %s" % (k, v[1], len(l), v[2][:700].replace("\n", " ")))
            if first is None:
                first = path
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    for m in inconc:
        print("INCONCLUSIVE: " + m)
    bad = [m for m in inconc if "killed" in m or "before its first" in m or "watchdog" in m]
    if bad:
        return 2
    print("held: property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (pid, tier, seed, ev, len(distinct), time.time() - t0, t_build))
    return 0


def write_evidence(pid, tier, seed, C, ev, distinct, counters, samples, inconc, t0, t_build, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"evaluations": ev, "distinct_nontrivial": len(distinct), "rule": C["rule"], "samples": samples[:6]}
    cov["observed"] = counters
    if inconc:
        cov["inconclusive"] = inconc
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": C.get("assumptions", []) + ["x86-64, clang 18 libstdc++ build; sanitizers see only executed paths"],
               "wall_s": round(time.time() - t0, 2), "violations": nviol},
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
