#!/usr/bin/env python3
"""plant.py bugs.py [ids]: BUGS = [dict(id, prop, edits=[(file, old, new[, count])], needs, breaks, demo)] -> /verif/seeded/<id>; then demo on both trees."""
import json, os, subprocess, sys, runpy
V = "/verif/seeded"; SB = "/tmp/sb/repo"
SH = open("/verif/tools/demo_template.sh").read()
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for b in bugs:
    if only and b["id"] not in only: continue
    sh("rm -rf /tmp/sb/repo; mkdir -p /tmp/sb; git clone -q /repo /tmp/sb/repo")
    for e in b["edits"]:
        p = os.path.join(SB, e[0]); s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != n: sys.exit("%s: %s occurs %d times in %s" % (b["id"], e[1][:60], s.count(e[1]), e[0]))
        open(p, "w").write(s.replace(e[1], e[2]))
    d = os.path.join(V, b["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SB).stdout)
    open(d + "/demo.cc", "w").write(b["demo"].lstrip())
    open(d + "/demo.sh", "w").write(SH.replace("@FLAGS@", b.get("flags", "-O1")))
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r1 = sh("bash %s/demo.sh" % d, cwd=SB)
    sh("git -C %s checkout -- ." % SB)
    r0 = sh("bash %s/demo.sh" % d, cwd=SB)
    print(b["id"], "clean", r0.returncode, "bug", r1.returncode, "OK" if r0.returncode == 0 and r1.returncode else "PROBLEM", (r1.stdout + r1.stderr)[-150:].strip())
    if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
    sys.stdout.flush()
