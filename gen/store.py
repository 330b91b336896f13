"""C25: the histories of every area, run three times over in a build that watches every access and release of memory."""
import concurrent.futures as cf, importlib, os
from vlib import area, core
from vlib.core import Case
from .vars import tlc_model

FLAGS = ("-O1", "-DDEBUG", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
# property -> (histories quick, thorough)
SHARE = {"C01": (260, 3000), "C02": (120, 1500), "C03": (20, 200), "C05": (40, 600), "C06": (110, 1500), "C07": (90, 1500), "C08": (110, 2000), "C09": (60, 800),
         "C10": (60, 800), "C24": (50, 800), "C11": (70, 1200), "C12": (40, 600), "C13": (60, 800), "C14": (40, 400), "C15": (50, 600), "C16": (70, 1200),
         "C18": (70, 1200), "C17": (70, 1000), "C19": (60, 1000), "C20": (70, 1000), "C21": (60, 1200), "C22": (80, 1200), "C23": (60, 800)}


def harvest(prop, seed, wd, kf):
    got = []

    def take(prop, wd, kf, driver, module, cases, **k):
        got.append((driver, cases, k.get("limit", 60)))
    mod = importlib.import_module("gen." + PLACE[prop])
    keep, mod.area = mod.area, type("Take", (), {"run": staticmethod(take)})
    try:
        mod.check(prop, "quick", seed, wd, kf)
    finally:
        mod.area = keep
    return got[0]


PLACE = {}


def thrice(c):
    calls = [({"op": "call"}, cmd) for _, cmd in c.steps]
    heap = [({"op": "heap"}, "heap %d" % c.seed)]
    return Case(c.tag, (calls + heap) * 3, c.seed)


def own_model(wd, prop):
    a, b = core.parse_tlc_stats(tlc_model(wd, "own", "OwnModel", "OwnModel.cfg", workers=8))
    return b, a, []


def check(prop, tier, seed, wd, kf):
    from vlib.props import AREA_OF
    PLACE.update(AREA_OF)
    jobs = {}
    for p, (q, t) in SHARE.items():
        sub = os.path.join(wd, p)
        os.makedirs(sub, exist_ok=True)
        n, s, pick = q if tier == "quick" else t, seed, []
        while len(pick) < n:
            driver, cases, limit = harvest(p, s, sub, [])
            cases = [c for c in cases if len(c.steps) <= 400 and sum(len(x) for _, x in c.steps) < 40000]
            need = min(n - len(pick), len(cases))
            pick += [cases[i * len(cases) // need] for i in range(need)]
            s += 1000
        jobs.setdefault(driver, []).extend(thrice(c) for c in pick)
    core.build_driver("num", FLAGS)                    # the library's objects, once
    names = sorted(jobs, key=lambda d: (d != "poly", d))
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda d: core.build_driver(d, FLAGS), names))
    rep = None
    for d in names:
        r = area.run(prop, wd, kf, d, "TraceStore", jobs[d], models=[own_model] if d == "num" else [], limit=40, flags=FLAGS,
                     rule="a sample of every other property's histories, each run three times over; every access is watched (AddressSanitizer, checked standard "
                          "containers), and the storage in use after each repetition must not grow from the first to the second and again to the third")
        if rep is None:
            rep = r
            continue
        c, e = rep["coverage"], r["coverage"]
        for k, v in e.items():
            if isinstance(v, int):
                c[k] = c.get(k, 0) + v
            elif isinstance(v, dict):
                for x, y in v.items():
                    c[k][x] = c[k].get(x, 0) + y
        c["samples"] = (c["samples"] + e["samples"])[:8]
        rep["violations"] += r["violations"]
        rep["known_seen"] += r["known_seen"]
        if rep["violations"]:
            break
    return rep
