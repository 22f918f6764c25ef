#!/usr/bin/env python3
"""Confirms one planted bug: seed.py ID.  Works in a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, tempfile
sid = sys.argv[1]
d = f"/verif/seeded/{sid}"
tmp = tempfile.mkdtemp(prefix="seed-")
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
try:
    # demo on the unchanged tree
    demo = tmp + "/demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r0 = sh(f"bash {demo}/demo.sh", cwd="/repo")
    if r0.returncode != 0:
        print(sid, "DEMO FAILS ON CLEAN TREE", r0.stdout[-1500:], r0.stderr[-500:]); sys.exit(1)
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(sid, "PATCH DOES NOT APPLY", a.stderr); sys.exit(1)
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(sid, "DOES NOT BUILD", b.stderr[-800:]); sys.exit(1)
        sh(f"bash /opt/vp/test.sh {tmp}/out.json")
        out = json.load(open(tmp + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        want = base if isinstance(base, list) else (base.get("stable") or base.get("passed") or base.get("tests"))
        got = set(out.get("passed", []))
        miss = [t for t in want if t not in got]
        if miss: print(sid, "TESTS FAIL", miss[:5]); sys.exit(1)
        r1 = sh(f"bash {demo}/demo.sh", cwd="/repo")
        if r1.returncode == 0: print(sid, "DEMO PASSES WITH THE PATCH"); sys.exit(1)
        prop = json.load(open(d + "/meta.json"))["property"]
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh {prop} quick")
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(sid, "confirmed; check", prop, "exit", c.returncode, v[:1] or "MISSED")
        if "-v" in sys.argv: print(c.stdout[-3000:])
    finally:
        sh("git -C /repo checkout -- .")
finally:
    shutil.rmtree(tmp)
