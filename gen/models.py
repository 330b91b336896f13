"""Models of the specification itself: laws of its algebra, and agreement of the Java overrides with the TLA+ definitions."""
import os, re
from vlib import core
from .vars import tlc_model

LAWS = {"BigInt": [("BigIntCheck", "BigIntCheck.cfg")],
        "Poly": [("PolyCheck", "PolyCheck%s.cfg" % k) for k in "ZQP"],
        "ModPoly": [("ModPolyCheck", "ModPolyCheck.cfg")]}
DIGESTS = [("BigIntCheck", "BigIntShow.cfg")] + [("PolyCheck", "PolyShow%s.cfg" % k) for k in "ZQP"] + [("ModPolyCheck", "ModPolyShow.cfg")]


def laws(*names):
    def run(wd, prop):
        s = t = 0
        for n in names:
            for m, c in LAWS[n]:
                a, b = core.parse_tlc_stats(tlc_model(wd, "law-" + c[:-4], m, c, workers=8))
                s, t = s + b, t + a
        return s, t, []
    return run


def digest(wd, module, cfg, java):
    md = os.path.join(wd, "dig-%s-%d" % (cfg[:-4], java))
    os.makedirs(md, exist_ok=True)
    rc, out = core.tlc(module, cfg, workers=1, mem="4g", metadir=md, timeout=1200, java=java)
    if rc or "No error has been found" not in out:
        raise core.Infra("%s (%s) does not check:\n%s" % (module, cfg, out[-3000:]))
    return sorted(re.findall(r'^"D .*$', out, re.M))


def overrides(wd):
    """every Java override gives what the definition beside it gives; returns the number of points compared"""
    n = 0
    for m, c in DIGESTS:
        a, b = digest(wd, m, c, True), digest(wd, m, c, False)
        if len(a) < 100 or a != b:
            raise core.Infra("Java override and definition differ: %s %s\n%s" % (m, c, next(((x[:600], y[:600]) for x, y in zip(a, b) if x != y), (len(a), len(b)))))
        n += len(a)
    return n
