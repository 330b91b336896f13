"""real root isolation, real algebraic numbers (C19, C20)."""
import random
from fractions import Fraction as Fr
from math import isqrt
from vlib import area
from vlib.core import J
from . import pyp
from .pyp import ZZ
from .gcd import One, coef

P = 2**61 - 1


def padd(a, b):
    n = max(len(a), len(b))
    c = [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]
    while c and not c[-1]:
        c.pop()
    return c


def pmul(a, b):
    if not a or not b:
        return []
    c = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            c[i + j] += x * y
    return c


def pmod(a):
    a = [x % P for x in a]
    while a and not a[-1]:
        a.pop()
    return a


def pgcd_deg(a, b):
    """degree of the gcd modulo P: 0 certifies coprimality when a leading coefficient survives"""
    if not a or not b or (a[-1] % P == 0 and b[-1] % P == 0):
        return 99
    a, b = pmod(a), pmod(b)
    while b:
        i = pow(b[-1], -1, P)
        while len(a) >= len(b):
            k, s = a[-1] * i % P, len(a) - len(b)
            a = pmod([x - k * b[j - s] if j >= s else x for j, x in enumerate(a)])
            if not a:
                break
        a, b = b, a
    return len(a) - 1


def deriv(a):
    return [i * x for i, x in enumerate(a)][1:]


def sqfree(a):
    return len(a) == 2 or len(a) > 2 and pgcd_deg(a, deriv(a)) == 0


def todict(a):
    return {(i,): x for i, x in enumerate(a) if x}


SH = 220


def iroot3(n):
    s = -1 if n < 0 else 1
    n = abs(n)
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        lo, hi = (m, hi) if m**3 <= n else (lo, m - 1)
    return s * lo


def planted(r, small=False):
    """(dense polynomial, approximate real roots)"""
    k = r.random()
    d = r.choice([1, 1, 1, 2, 3, 4, 7, 8, 16, 2**r.randint(1, 20)] if not small else [1, 1, 2, 3, 4])
    c = r.choice([0, 0, 1, -1, 2, -3, r.randint(-20, 20), r.randint(-2**r.randint(1, 16), 2**12)] if not small else [0, 1, -1, 2, 3, r.randint(-9, 9)])
    lin = [-c, d]
    if k < 0.45:
        if r.random() < .25:
            j = r.randint(0, 12)
            lin = [-r.choice([1, -1]) * r.choice([1, 3, 5, 2**j - 1, 2**j + 1, 2**j]), 2**r.randint(0, j + 2)]
        return lin, [Fr(-lin[0], lin[1])]
    if k < 0.75:
        n = r.choice([2, 3, 5, 2, 7, 10, 15, 17, r.randint(2, 400), 2**r.randint(1, 40) + 1, 10**r.randint(1, 12) + r.choice([1, -1])])
        if isqrt(n)**2 == n:
            n += 1
        s = Fr(isqrt(n << (2 * SH)), 1 << SH)
        return padd(pmul(lin, lin), [-n]), [(c - s) / d, (c + s) / d]
    if k < 0.87:
        n = r.choice([2, 3, -2, 5, r.randint(2, 1000), -r.randint(2, 1000)])
        if abs(iroot3(n))**3 == abs(n):
            n = 2
        s = Fr(iroot3(n << (3 * SH)), 1 << SH)
        return padd(pmul(lin, pmul(lin, lin)), [-n]), [(c + s) / d]
    n = r.choice([1, 1, 2, 5, r.randint(1, 1000)])
    return padd(pmul(lin, lin), [n]), []


def special(r, n):
    """squarefree polynomials hard to isolate (no root table)"""
    k = r.random()
    if k < 0.2:          # Mignotte
        a = r.choice([2, 3, 5, 10, 100, 2**10])
        q = [-1, a]
        return padd([0] * n + [1], [-2 * x for x in pmul(q, q)])
    if k < 0.35:         # Chebyshev
        a, b = [1], [0, 1]
        for _ in range(n - 1):
            a, b = b, padd([0] + [2 * x for x in b], [-x for x in a])
        return b
    if k < 0.5:          # Wilkinson-like
        f = [1]
        s, d = r.randint(-n, 2), r.choice([1, 1, 2, 3, 8])
        for i in range(n):
            f = pmul(f, [-(s + i), d])
        return f
    if k < 0.65:         # close rational roots
        b = r.choice([10, 20, 33, 40])
        m = r.randint(1, 2**b - 2)
        f = pmul([-m, 2**b], [-(m + 1), 2**b])
        return pmul(f, [-r.randint(-3, 3), 1]) if n > 2 else f
    if k < 0.75:         # roots at the powers of two used as bounds, and at every bisection point
        f = [1]
        for x in r.sample([Fr(1), Fr(2), Fr(-2), Fr(4), Fr(-1), Fr(1, 2), Fr(-1, 2), Fr(3, 2), Fr(-3, 4), Fr(1, 4), Fr(0), Fr(8), Fr(-4), Fr(3), Fr(5, 8), Fr(-7, 8), Fr(16)], min(n, 6)):
            f = pmul(f, [-x.numerator, x.denominator])
        return f
    big = r.choice([0, 0, 0.3])
    return [coef(r, big) if i == n or r.random() < .8 else 0 for i in range(n + 1)]


def product(r, m, small=False):
    """squarefree product of planted factors with its root table"""
    f, roots = [1], []
    for _ in range(m):
        g, rt = planted(r, small)
        if pgcd_deg(f, g) == 0:
            f, roots = pmul(f, g), roots + rt
    if r.random() < .3:
        f = [-x for x in f]
    if r.random() < .1:
        s = r.choice([2, 6, 10, 2**64])
        f = [s * x for x in f]
    return f, sorted(roots)


class Roots(One):
    def u(self, f):
        return self.cmdp("ZU", todict(f), ZZ)

    def one(self, op, f, extra=None, cmd=None):
        ts, c = self.u(f)
        self.ev(dict({"op": op, "f": ts}, **(extra or {})), "%s %s" % (cmd or op, c))

    def realroot(self, d, fs, t=None):
        t = t or self.r.choice(["Zl", "Zl", "Zg", "Zc", "Zh"])
        o = self.rnd_ord(t)
        cs = [self.cmdp(t, todict(f)) for f in fs]
        self.ev({"op": "realroot", "d": d, "fs": [c[0] for c in cs]},
                "realroot %s %s %s %d %s" % (d, t, o, len(fs), " ".join(c[1] for c in cs)))


def J2(q):
    return [J(q.numerator), J(q.denominator)]


def qs(q):
    return "%d/%d" % (q.numerator, q.denominator)


def isolation_case(r, tier, n):
    h = Roots(r, 1)
    top = 7 if tier == "quick" else 14
    k = n % 5
    if k in (0, 1):
        for _ in range(2):
            f = special(r, r.randint(2, top)) if r.random() < .4 else product(r, r.randint(1, 4))[0]
            if not sqfree(f):
                continue
            h.one("usp", f)
            h.one("bound", f)
            h.one("signs", f)
    elif k == 2:
        for _ in range(3):
            f = special(r, r.randint(1, 6))
            while f and not f[-1]:
                f.pop()
            if r.random() < .1:
                f = [] if r.random() < .5 else [coef(r, .3)]
            B = r.choice([1, -1, 2, -8, 64, r.randint(-99, 99), 2**33])
            a, b = Fr(r.randint(-30, 30), r.choice([1, 2, 3, 4, 8, 6])), Fr(r.randint(-30, 30), r.choice([1, 2, 5, 4, 12]))
            if r.random() < .2:
                a = Fr(0)
            kind = r.choice(["1toinf", "Bto1", "01to012", "01to121", "Rtoab"])
            if kind == "Bto1" and not B:
                B = 3
            ts, c = h.u(f)
            e = {"op": "xf", "k": kind, "f": ts, "B": J(B), "a": J2(a), "b": J2(b)}
            if kind in ("1toinf", "Bto1") and r.random() < .4:
                o = [h.u(special(r, 3))[1], h.u([1])[1]]
                i = r.randint(0, 2)
                o.insert(i, c)
                h.ev(e, "xfl %s 3 %s %d %d" % (kind, " ".join(o), B, i + 1))
            else:
                h.ev(e, "xf %s %s %d %s %s" % (kind, c, B, qs(a), qs(b)))
            h.one("bound", f)
            h.one("signs", f)
    elif k == 3:
        gs, F = [], [1]
        for _ in range(r.randint(1, 4)):
            g = product(r, r.choice([1, 1, 2, 3]))[0] if r.random() < .8 else special(r, r.randint(2, 5))
            if len(g) > 1 and sqfree(g) and pgcd_deg(F, g) == 0:
                F = pmul(F, g)
                gs.append(g)
        if r.random() < .15:
            gs.insert(r.randint(0, len(gs)), [r.choice([1, -1, 7])])
        cs = [h.u(g) for g in gs]
        h.ev({"op": "uspl", "fs": [c[0] for c in cs]}, "uspl %d %s" % (len(gs), " ".join(c[1] for c in cs)))
    else:
        pool = []
        for _ in range(r.randint(1, 4)):
            g = planted(r)[0] if r.random() < .85 else special(r, r.randint(2, 4))
            if any(g):
                while not g[-1]:
                    g.pop()
                pool.append(g)
        fs = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            f = [r.choice([1, 1, -1, 2, -3])]
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                g = r.choice(pool)
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    if len(f) + len(g) < (12 if tier == "quick" else 20):
                        f = pmul(f, g)
            fs.append(f)
        h.realroot("r", fs)
        if r.random() < .1:
            h.realroot("e", [])
    return h.case("isolate#%d" % n, seed=r.randrange(2**32))


OPS = ["comp", "comp", "lt", "gt", "le", "ge", "eq", "ne"]


def order_case(r, tier, n):
    h = Roots(r, 1)
    objs = []
    base = []                       # shared factors so that equal numbers occur under different polynomials
    for _ in range(r.choice([2, 3])):
        g, rt = planted(r, True)
        if rt:
            base.append((g, rt))
    anchor = [x for _, rt in base for x in rt]

    def mk():
        """object given by polynomial and isolating interval"""
        f, rts = [1], []
        for g, rt in r.sample(base, min(len(base), r.choice([1, 1, 2]))) + [planted(r, True) for _ in range(r.choice([0, 0, 1, 2]))]:
            if pgcd_deg(f, g) == 0:
                f, rts = pmul(f, g), rts + rt
        if not rts:
            return
        rts.sort()
        i = r.randrange(len(rts))
        if r.random() < .5:
            near = [j for j, x in enumerate(rts) if any(abs(x - a) < Fr(1, 2**150) for a in anchor)]
            if near:
                i = r.choice(near)
        x = rts[i]
        lo = rts[i - 1] if i else x - r.choice([1, 3, 40])
        hi = rts[i + 1] if i + 1 < len(rts) else x + r.choice([1, 3, 40])
        name = ["u", len(objs)]
        for _ in range(20):
            d = r.choice([1, 1, 2, 4, 8, 16, 3, 10])
            m = r.random()
            if m < .5:
                a, b = Fr((x * d).__floor__(), d), Fr((x * d).__floor__() + 1, d)
            elif m < .8:
                a, b = Fr((x * d).__floor__() - r.randint(0, 2), d), Fr((x * d).__floor__() + r.randint(1, 3), d)
            else:
                w = Fr(1, r.choice([2, 7, 2**10, 2**40]))
                a, b = x - w * Fr(r.randint(1, 8), 9), x + w * Fr(r.randint(1, 8), 9)
                a, b = Fr((a * 2**60).__floor__(), 2**60), Fr((b * 2**60).__floor__(), 2**60)
            eps = Fr(1, 2**150)
            if lo + eps < a < x - eps and x + eps < b < hi - eps:
                break
        else:
            if x.denominator < 2**100:
                a = b = x
            else:
                return
        if r.random() < .08 and x.denominator < 2**100:
            a = b = x
        ts, c = h.u(f)
        h.ev({"op": "new", "d": name, "f": ts, "a": J2(a), "b": J2(b)}, "new u %d %s %s %s" % (name[1], c, qs(a), qs(b)))
        objs.append(name)

    def twins():
        """rational numbers with simple binary expansions under one common interval"""
        lo = r.randint(-3, 3)
        w = r.choice([1, 1, 2, 4])
        for _ in range(r.choice([2, 2, 3])):
            j = r.choice([1, 2, 2, 3, 4, 5])
            x = lo + w * Fr(r.randint(1, 2**j - 1), 2**j)
            f, rts = [-x.numerator, x.denominator], []
            if r.random() < .3:
                g = planted(r, True)
                if pgcd_deg(f, g[0]) == 0 and all(not lo - Fr(1, 2**99) <= t <= lo + w + Fr(1, 2**99) for t in g[1]):
                    f = pmul(f, g[0])
            anchor.append(x)
            name = ["u", len(objs)]
            ts, c = h.u(f)
            h.ev({"op": "new", "d": name, "f": ts, "a": J2(Fr(lo)), "b": J2(Fr(lo + w))}, "new u %d %s %d %d" % (name[1], c, lo, lo + w))
            objs.append(name)
    if r.random() < .4:
        twins()
    for _ in range(r.choice([2, 3, 4]) if not objs else r.choice([0, 0, 1, 2])):
        mk()
    if r.random() < .6:             # roots delivered by realroot: the number of objects is known from the table
        for d in "pq"[:r.choice([1, 2])]:
            fs, F, rts = [], [1], []
            for _ in range(r.choice([1, 2])):
                f = [1]
                for g, rt in r.sample(base, min(len(base), r.choice([1, 1, 2]))) + [planted(r, True) for _ in range(r.choice([0, 1, 2]))]:
                    if pgcd_deg(F, g) == 0:
                        rts += rt
                        F = pmul(F, g)
                        f = pmul(f, g)
                    elif len(f) + len(g) < 9:
                        f = pmul(f, g) if g in [b for b, _ in base] else f
                fs.append(f)
            h.realroot(d, fs)
            objs.extend([[d, i + 1] for i in range(len(rts))])
    if r.random() < .4:
        s = r.choice([1, -1])
        h.ev({"op": "inf", "d": ["i", s + 1], "k": s}, "inf i %d %d" % (s + 1, s))
        objs.append(["i", s + 1])
        if r.random() < .5:
            h.ev({"op": "inf", "d": ["i", 1 - s], "k": -s}, "inf i %d %d" % (1 - s, -s))
            objs.append(["i", 1 - s])
    if not objs:
        return order_case(r, tier, n)
    nm = lambda o: "%s %d" % tuple(o)
    for step in range(r.choice([6, 10, 16]) if tier == "quick" else r.choice([10, 20, 30])):
        k = r.random()
        x, y = r.choice(objs), r.choice(objs)
        if k < .5:
            op = r.choice(OPS)
            h.ev({"op": "cmp", "k": op, "x": x, "y": y}, "cmp %s %s %s" % (op, nm(x), nm(y)))
        elif k < .8:
            op = r.choice(OPS)
            side = r.choice("LR")
            if r.random() < .5:
                w = r.choice("lrm")
                h.ev({"op": "cmpq", "k": op, "x": x, "q": []}, "cmpq %s %s %s %s %s" % (op, side, nm(x), w, nm(y)))
            else:
                if anchor and r.random() < .6:
                    a = r.choice(anchor)
                    q = a if a.denominator < 2**100 and r.random() < .7 else Fr((a * 2**r.choice([0, 1, 4, 30, 90])).__floor__() + r.choice([0, 1]), 1)
                    if q != a:
                        e = r.choice([0, 1, 2, 4, 30])
                        q = Fr((a * 2**e).__floor__() + r.choice([0, 1]), 2**e)
                else:
                    q = Fr(r.randint(-20, 20), r.choice([1, 2, 3, 8]))
                h.ev({"op": "cmpq", "k": op, "x": x, "q": J2(q)}, "cmpq %s %s %s q %s" % (op, side, nm(x), qs(q)))
        elif k < .92:
            h.ev({"op": "shrink", "x": x}, "shrink %s" % nm(x))
        else:
            d = ["c", step]
            h.ev({"op": "copy", "d": d, "x": x}, "%s %s %s" % (r.choice(["copy", "move"]), nm(d), nm(x)))
            objs.append(d)
    return h.case("order#%d" % n, seed=r.randrange(2**32))


def check(prop, tier, seed, wd, kf):
    N = {"C19": (3000, 15000), "C20": (2000, 12000)}[prop][tier == "thorough"]
    mk = {"C19": isolation_case, "C20": order_case}[prop]
    cases = [mk(random.Random("%s-%d-%d" % (prop, seed, n)), tier, n) for n in range(N)]
    return area.run(prop, wd, kf, "roots", "TraceRoots", cases, limit=30,
                    rule="distinct histories of root isolation / algebraic number calls; counts, order and identity of roots decided by Sturm sequences")
