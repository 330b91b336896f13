#!/usr/bin/env python3
"""cov.py <property> <file>...: lines of /repo/clpoly files the property's histories never execute (development aid)."""
import importlib, os, re, subprocess, sys, tempfile, glob, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
from vlib.props import AREA_OF
prop, files = sys.argv[1], sys.argv[2:]
tmp = tempfile.mkdtemp(prefix="cov-")
core.BUILD = tmp
os.makedirs(tmp + "/tmp")
orig = core.build_driver


def build(name, flags=()):
    return orig(name, tuple(flags) + ("--coverage", "-fno-inline", "-O0"))


core.build_driver = build
# link needs --coverage too
src = core._compile


def comp(cmd, out):
    if "-c" not in cmd:
        cmd = cmd + ["--coverage"]
        tmpo = out
        r = subprocess.run(cmd + ["-o", tmpo], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit(r.stderr)
        return out
    r = subprocess.run(cmd + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        raise SystemExit(r.stderr)
    return out


core._compile = comp
core.tlc_trace = lambda module, cfg, events, *a, **k: (len(events), (1, 1), None)
area = importlib.import_module("gen." + AREA_OF[prop])
area.tlc_model = getattr(area, "tlc_model", None)
wd = tmp + "/wd"
os.makedirs(wd)
area.check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), wd, [])
os.chdir(tmp)
agg = {}
for g in glob.glob(tmp + "/*.gcno"):
    r = subprocess.run(["gcov", "-t", "-r", "-s", "/repo", g], capture_output=True, text=True, cwd=tmp)
    cur = None
    for line in r.stdout.splitlines():
        m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", line)
        if not m:
            continue
        c, n, t = m.group(1).strip(), int(m.group(2)), m.group(3)
        if n == 0 and t.startswith("Source:"):
            cur = os.path.basename(t[7:])
            continue
        if cur is None or c == "-":
            continue
        d = agg.setdefault(cur, {})
        hit = c not in ("#####", "=====")
        d[n] = (d.get(n, (False,))[0] or hit, t)
for f in files:
    d = agg.get(f, {})
    miss = [n for n in sorted(d) if not d[n][0]]
    print("== %s: %d of %d lines not executed" % (f, len(miss), len(d)))
    for n in miss:
        print("%5d %s" % (n, d[n][1]))
shutil.rmtree(tmp)
