#!/usr/bin/env python3
"""plant.py [--check] ID...: confirms seeded changes (builds, tests pass, demo fails) and runs the property's quick check against each; then undoes it."""
import json, os, subprocess, sys, time
V = "/verif/seeded"
def sh(c, t=1200): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, cwd="/repo")
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V))
assert not sh("git status --porcelain").stdout.strip(), "/repo is dirty"
res = {}
for i in ids:
    meta = json.load(open("%s/%s/meta.json" % (V, i)))
    r = {"property": meta["property"]}
    try:
        if "--nodemo" not in sys.argv:
            assert sh("bash /opt/vp/build.sh").returncode == 0
            r["demo0"] = sh("%s/%s/demo.sh" % (V, i)).returncode
        a = sh("git apply %s/%s/patch.diff" % (V, i))
        assert a.returncode == 0, a.stdout
        if "--nodemo" not in sys.argv:
            b = sh("bash /opt/vp/build.sh")
            assert b.returncode == 0, b.stdout[-2000:]
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/plant.json"))
            st = base.get("stable") or base.get("passed") or base
            r["missing"] = [x for x in st if x not in o["passed"]]
            d = sh("%s/%s/demo.sh" % (V, i)); r["demo1"] = d.returncode; r["say"] = d.stdout.strip().split("\n")[-1][:150]
        if "--check" in sys.argv:
            t = time.time()
            for p in [meta["property"]] + [a[3:] for a in sys.argv if a.startswith("-p=")]:
                c = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.py " + p)
                v = [l for l in c.stdout.split("\n") if "VIOLATION" in l or l.startswith("#") or "violat" in l]
                r["check_" + p] = (c.returncode, v[:3], round(time.time() - t))
    except AssertionError as e: r["error"] = str(e)
    finally: sh("git checkout -- .")
    ok = r.get("demo0") == 0 and r.get("demo1") not in (0, None) and not r.get("missing") and "error" not in r
    print(i, "OK" if ok else "BAD", json.dumps(r), flush=True)
if "--nodemo" not in sys.argv: sh("bash /opt/vp/build.sh")
