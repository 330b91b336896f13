#!/usr/bin/env python3
"""seed.py new <id> <prop>   : take the uncommitted difference of /tmp/sb/repo (a copy of /repo) as seeded/<id>/patch.diff
   seed.py fresh             : (re)create /tmp/sb/repo
   seed.py test <id>...      : in scratch copies: build, stable tests, demo on both trees
   seed.py check <id>...     : run the property's quick check on a patched copy"""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"
SB = "/tmp/sb/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh(d=SB):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    sh("git -C /repo worktree prune; git clone -q /repo %s" % d)
cmd = sys.argv[1]
if cmd == "fresh": fresh()
elif cmd == "new":
    i, prop = sys.argv[2:4]
    d = os.path.join(V, i); os.makedirs(d, exist_ok=True)
    p = sh("git -C %s diff" % SB).stdout
    if not p: sys.exit("empty diff")
    open(d + "/patch.diff", "w").write(p)
    sh("git -C %s checkout -- ." % SB)
    print(p)
elif cmd == "demo":
    for i in sys.argv[2:]:
        d = os.path.join(V, i)
        fresh()
        r0 = sh("bash %s/demo.sh" % d, cwd=SB)
        a = sh("git apply %s/patch.diff" % d, cwd=SB)
        r1 = sh("bash %s/demo.sh" % d, cwd=SB)
        print(i, "apply", a.returncode, a.stderr[-200:], "clean", r0.returncode, "bug", r1.returncode, "OK" if r0.returncode == 0 and r1.returncode not in (0,) else "PROBLEM")
        if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
        print("   ", (r1.stdout + r1.stderr)[-300:])
elif cmd == "check":
    for i in sys.argv[2:]:
        d = os.path.join(V, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        fresh("/tmp/sb/chk")
        a = sh("git -C /tmp/sb/chk apply %s/patch.diff" % d)
        r = sh("cd /verif && VERIF_DEV_REPO=/tmp/sb/chk VERIF_SEED=1 python3 check.py " + prop)
        print(i, prop, "apply", a.returncode, "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED")
        print("   ", "\n    ".join(l[:300] for l in r.stdout.splitlines()[-4:]))
