#!/usr/bin/env python3
"""mkseed.py ID PROP PKG FILE <<< json {old,new,needs,breaks,demo, [edits:[[file,old,new]]]} : writes seeded/ID and confirms it."""
import sys, json, os, subprocess, shutil
sid = sys.argv[1]
spec = eval(sys.stdin.read())
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in spec["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
finally:
    subprocess.run("git -C /repo checkout -- .", shell=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/pkg", "w").write(spec["pkg"] + "\n")
open(d + "/demo_test.go", "w").write(spec["demo"])
for u in spec.get("use", []):
    t = open(f"/verif/harness/{u}.go.tmpl").read().replace("package PKG", "package " + spec["demo"].split()[1])
    open(d + f"/{u}_test.go", "w").write(t)
shutil.copy("/verif/tools/demo.sh.tmpl", d + "/demo.sh")
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["python3", "/verif/tools/seed.py", sid])
