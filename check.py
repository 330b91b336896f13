#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree (see DESIGN.md).
   check.py --replay <file> : run a recorded rejection again."""
import importlib, json, os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from vlib.props import AREA_OF, LEVEL


def known_findings():
    """lines  finding: property=<id> key=<case key> <what fails>"""
    kf = {}
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                kf.setdefault(m.group(1), []).append(dict(key=m.group(2), what=m.group(3)))
    return kf


def replay(path):
    d = json.load(open(path))
    wd = tempfile.mkdtemp(prefix="replay-", dir=_tmp())
    try:
        c = core.Conformance(d["property"], d["driver"], d["module"], d["cfg"], wd, tuple(d["flags"]), d["limit"])
        c.exe = core.build_driver(d["driver"], c.flags)
        acc, ev, err = c._once([core.Case(x["tag"], [tuple(s) for s in x["steps"]], x["seed"]) for x in d["cases"]], "replay")
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if acc is None:
        print("accepted: the history is a behaviour of the specification")
        return 0
    print("rejected at", json.dumps(ev[acc])[:3000])
    if err:
        print(err)
    return 1


def _tmp():
    d = os.path.join(core.BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return d


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    area = importlib.import_module("gen." + AREA_OF[prop])
    wd = tempfile.mkdtemp(prefix=prop + "-", dir=_tmp())
    kf = known_findings().get(prop, [])
    try:
        rep = area.check(prop, tier, seed, wd, kf)
    except core.Infra as e:
        print("ERROR: the check could not run: %s" % e)
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    for e in rep.get("known_seen", []):
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL[prop], coverage=rep["coverage"],
              assumptions=rep.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(rep["violations"]))
    os.makedirs(core.EVID, exist_ok=True)
    with open(os.path.join(core.EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for tag, path, bad in rep["violations"]:
        print("# rejected (%s): %s" % (tag, json.dumps(bad)[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    c = rep["coverage"]
    print("%s %s: %s; %.1fs" % (prop, tier, ", ".join("%s=%s" % (k, v) for k, v in c.items() if isinstance(v, int)), time.time() - t0))
    return 1 if rep["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
