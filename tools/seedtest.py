#!/usr/bin/env python3
"""Tries planted bugs in private copies of /repo (bind-mounted over /repo in a namespace of their own).

usage: tools/seedtest.py [--notest] [--nocheck] [--check ID,ID] [--keep] BUG...
Builds a copy of /repo, runs demo.sh (wants 0), applies patch.diff, builds, runs the stable tests, demo.sh (wants
nonzero), and the check of the bug's property (wants exit 1)."""
import sys, os, subprocess, json, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, log, t=1500, env=None):
    e = dict(os.environ, **(env or {}))
    with open(log, "wb") as f:
        try:
            return subprocess.run(["bash", "-c", cmd], stdout=f, stderr=subprocess.STDOUT, timeout=t, env=e, cwd="/repo").returncode
        except subprocess.TimeoutExpired:
            return 124

def inside(bug, opts):
    d = f"/tmp/seed.{bug}"
    s = f"{V}/seeded/{bug}"
    res = {}
    demo = f"{d}/demo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(s, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    res["build0"] = sh("bash /opt/vp/build.sh", f"{d}/build0.log")
    res["demo0"] = sh(f"bash {demo}/demo.sh", f"{d}/demo0.log", 300)
    res["apply"] = sh(f"git -C /repo apply {s}/patch.diff", f"{d}/apply.log")
    res["build1"] = sh("bash /opt/vp/build.sh", f"{d}/build1.log")
    res["demo1"] = sh(f"bash {demo}/demo.sh", f"{d}/demo1.log", 300)
    ok = res["build0"] == 0 and res["demo0"] == 0 and res["apply"] == 0 and res["build1"] == 0 and res["demo1"] not in (0,)
    if "--notest" not in opts and ok:
        res["test"] = sh(f"bash /opt/vp/test.sh {d}/out.json", f"{d}/test.log")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = set(json.load(open(f"{d}/out.json"))["passed"])
        res["failing"] = sorted(base - got)
        ok = ok and not res["failing"]
    res["counts"] = ok
    if "--nocheck" not in opts:
        m = json.load(open(f"{s}/meta.json"))
        ids = opts.get("--check", m["property"]).split(",")
        for i in ids:
            t = time.time()
            rc = sh(f"cd {V} && python3 run.py {i} quick", f"{d}/check.{i}.log", 900)
            v = [l for l in open(f"{d}/check.{i}.log", errors="replace") if l.startswith("VIOLATION")]
            res["check " + i] = "%d (%d violation lines, %.0f s)" % (rc, len(v), time.time() - t)
    print(bug, json.dumps(res), flush=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    opts, bugs = {}, []
    while a:
        x = a.pop(0)
        if x == "--check": opts[x] = a.pop(0)
        elif x.startswith("--"): opts[x] = "1"
        else: bugs.append(x)
    if "--inside" in opts:
        subprocess.run(["mount", "--bind", f"/tmp/seed.{bugs[0]}/repo", "/repo"], check=True)
        inside(bugs[0], opts)
    else:
        for b in bugs:
            d = f"/tmp/seed.{b}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
            flat = [y for k, v in opts.items() for y in ((k, v) if k == "--check" else (k,))]
            subprocess.run(["unshare", "-Urm", "python3", os.path.abspath(__file__), "--inside"] + flat + [b], cwd=V)
            if "--keep" not in opts:
                shutil.rmtree(d, ignore_errors=True)
            else:
                shutil.rmtree(d + "/repo", ignore_errors=True)
