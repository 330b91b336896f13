"""Random generators: many draws per request (C23)."""
import random
from math import comb
from vlib import area
from vlib.core import J
from .poly import Hist

IMAX, IMIN = 2**31 - 1, -2**31


class Rnd(Hist):
    keep = False

    def ev(self, e, cmd):
        if e["op"] in ("poly", "sparse", "family", "graph", "select", "sample"):
            e["keep"] = self.keep
        super().ev(e, cmd)

    def turn(self):
        self.ev({"op": "turn"}, "none")

    def poly(self, k, t, V, deg, ln, lo, hi, const=False, md=1):
        u = t in "UV"
        V = [1] if u else V
        o = self.ojs("ZU" if u else "Zg", "-")
        e = {"op": "poly", "R": {"k": "Z" if t in "ZU" else "Q"}, "o": o, "V": V, "deg": deg, "len": ln, "lo": J(lo), "hi": J(hi), "const": const, "md": md}
        self.ev(e, "poly %d %s %d %d %d %d %d %d %d %s" % (k, t, deg, ln, lo, hi, const, md, len(V), " ".join(map(str, V))))

    def select(self, k, m, n, nr):
        self.ev({"op": "select", "m": m, "n": n, "norep": nr}, "select %d %d %d %d" % (k, m, n, nr))

    def sample(self, k, l, n):
        self.ev({"op": "sample", "l": l, "n": n}, "sample %d %d %d %s" % (k, n, len(l), " ".join(map(str, l))))

    def sparse(self, k, t, V, deg, p, lo, hi):
        e = {"op": "sparse", "R": {"k": t}, "o": self.ojs("Zg", "-"), "V": V, "deg": deg, "lo": J(lo), "hi": J(hi), "never": p == 0, "always": p == 1}
        self.ev(e, "sparse %d %s %d %s %d %d %d %s" % (k, t, deg, p, lo, hi, len(V), " ".join(map(str, V))))

    def family(self, k, V, deg, p, q, lo, hi):
        e = {"op": "family", "R": {"k": "Z"}, "o": self.ojs("Zg", "-"), "V": V, "deg": deg, "lo": J(lo), "hi": J(hi), "never": q == 0, "always": p == 1 and q == 1}
        self.ev(e, "family %d %d %s %s %d %d %d %s" % (k, deg, p, q, lo, hi, len(V), " ".join(map(str, V))))

    def graph(self, k, ns, p):
        self.ev({"op": "graph", "N": ns, "never": p == 0, "always": p == 1}, "graph %d %s %d %s" % (k, p, len(ns), " ".join(map(str, ns))))


def bounds(r):
    k = r.random()
    if k < 0.2:
        return r.choice([(1, 1), (-1, 1), (0, 1), (-1, 0), (1, 0), (0, -1), (5, 5), (-7, -7), (3, -3)])
    if k < 0.35:
        return r.choice([(IMIN, IMAX), (IMAX, IMIN), (IMAX, IMAX), (IMIN, IMIN), (IMIN, -1), (0, IMAX), (IMAX - 1, IMAX), (IMIN, IMIN + 1)])
    a, b = r.randint(-20, 20), r.randint(-20, 20)
    return (a, b) if (a, b) != (0, 0) else (0, 1)


def case(r, tier, n):
    nv = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20])
    h = Rnd(r, nv)
    for _ in range(6):
        k = r.random()
        V = r.sample(range(1, nv + 1), nv if r.random() < 0.5 else r.randint(1, nv))
        if k < 0.5:
            m = len(V)
            while True:
                deg = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 15, 20, 30, 40, 60, 100, 1000, 100000])
                if comb(m + deg, m) * (m + deg) < 2**62:
                    break
            total = comb(m + deg, m)
            ln = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 13, 20, r.randint(1, 60)])
            if total < 70 and r.random() < 0.6:
                ln = r.choice([total - 2, total - 1, total, total + 1, total + 5, total // 2, r.randint(1, total)])
            ln = max(0, ln)
            lo, hi = bounds(r)
            t = r.choice("ZZZQRRUV")
            if t in "UV":
                deg = min(deg, 1000)
            md = r.choice([1, 1, 2, 3, 10, 30]) if t == "R" else 1
            h.poly(max(1, 60 // max(1, ln)), t, V, deg, ln, lo, hi, t not in "UV" and r.random() < 0.35, md)
        elif k < 0.62:
            m = len(V)
            deg = r.choice([d for d in (0, 1, 2, 3, 4, 5, 7, 9) if comb(m + d, m) <= 130])
            p = r.choice([0, 1, 1, 0.5, 0.1, 0.9])
            h.sparse(r.choice([1, 3, 6]), r.choice("ZQ"), V, deg, p, *bounds(r))
        elif k < 0.72:
            m = r.choice([1, 2, 3, 4, 5, 8, 20, 100, 1000, 1999999990])
            x = r.randint(0, min(m, 30)) if r.random() < 0.8 else r.randint(0, 40)
            if m > 1000:
                x = min(x, 30)
            h.select(r.choice([20, 40]) if x else 1, m, x, r.random() < 0.7)
        elif k < 0.82:
            L = r.choice([0, 1, 2, 3, 5, 8, 20])
            l = r.sample(range(100), L) if r.random() < 0.6 else [r.randint(1, 4) for _ in range(L)]
            h.sample(25, l, r.randint(0, L + 2))
        elif k < 0.9:
            h.graph(10, r.sample(range(50), r.randint(0, 8)), r.choice([0, 1, 0.5, 0.3, 0.9]))
        else:
            m = len(V)
            deg = r.choice([d for d in (0, 1, 2, 3, 4) if comb(m + d, m) <= 60])
            h.family(4, V, deg, r.choice([0, 1, 1, 0.5, 0.7]), r.choice([0, 1, 1, 0.5, 0.9]), *bounds(r))
    return h.case("contract#%d" % n, seed=r.randrange(2**32))


def support(r, n):
    """requests with few outcomes: every one of them turns up"""
    h = Rnd(r, 3)
    j = n % 5
    K = 2500
    h.turn()
    h.keep = True
    if j == 0:
        m = r.choice([1, 2, 3, 4, 5])
        x = r.randint(0, min(3, m + 1))
        nr = r.random() < 0.7
        h.select(K, m, x, nr)
        h.ev({"op": "all-select", "m": m, "n": x, "norep": nr}, "none")
    elif j == 1:
        l = r.sample(range(50), r.randint(1, 6))
        x = r.randint(0, min(3, len(l)))
        h.sample(K, l, x)
        h.ev({"op": "all-sample", "l": l, "n": x}, "none")
    elif j == 2:
        V = r.sample([1, 2, 3], r.choice([1, 2, 2, 3]))
        deg = r.choice([1, 2] if len(V) < 3 else [1])
        if len(V) == 1:
            deg = r.choice([1, 2, 3, 4])
        ln = r.randint(1, min(3, comb(len(V) + deg, deg)))
        c = r.choice([1, -2, 7])
        h.poly(K, "Z", V, deg, ln, c, c)
        h.ev({"op": "all-poly", "V": V, "deg": deg, "len": ln, "nv": 3}, "none")
    elif j == 3:
        lo = r.randint(-5, 5)
        hi = lo + r.randint(0, 8)
        if lo == hi == 0:
            hi = 1
        h.poly(K, "Z", [1, 2], r.choice([0, 1, 2]), 1, *r.choice([(lo, hi), (hi, lo)]))
        h.ev({"op": "all-coef", "cs": [J(c) for c in range(lo, hi + 1) if c]}, "none")
    else:
        N = r.choice([2, 3])
        h.graph(K, list(range(N)), r.choice([0.5, 0.3]))
        h.ev({"op": "all-graph", "count": 2 ** (N * (N - 1) // 2)}, "none")
    return h.case("support#%d" % n, seed=r.randrange(2**32))


def check(prop, tier, seed, wd, kf):
    q = tier == "quick"
    cases = [case(random.Random("%s-%d-%d" % (prop, seed, n)), tier, n) for n in range(700 if q else 8000)]
    cases += [support(random.Random("%s-s%d-%d" % (prop, seed, n)), n) for n in range(60 if q else 400)]
    return area.run(prop, wd, kf, "random", "TraceRandom", cases, limit=20, flags=("-O1", "-DDEBUG", "-fsanitize=address"),
                    rule="distinct requests (all parameters, ends of ranges and of the monomial ranking included), tens of draws each; for requests with few outcomes, thousands of draws and the set of outcomes")
