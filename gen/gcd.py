"""gcd, contents, squarefree decompositions (C11, C12)."""
import random
from vlib import area
from vlib.core import Case
from . import pyp
from .pyp import ZZ
from .poly import Hist, SMALLP
from .num import PRIMES


class One(Hist):
    """one-shot calls over a fixed universe"""

    def cmdp(self, t, val, R=None):
        R = R or self.ring(t)
        ts = list(val.items())
        self.r.shuffle(ts)
        return pyp.terms_js(R, ts), pyp.terms_cmd(R, ts, t[1] == "U")

    def call(self, op, t, polys, pre="g", many=None, o=None, names=("f", "g"), extra=None, tail=""):
        R = self.ring(t)
        o = self.rnd_ord(t) if o is None else o
        e = {"op": op, "R": R.js(), "o": self.ojs(t, o), "nv": self.tnv(t)}
        cs = [self.cmdp(t, p) for p in polys]
        if many:
            e[many] = [c[0] for c in cs]
            cmd = "%d " % len(cs) + " ".join(c[1] for c in cs)
        else:
            for k, c in zip(names, cs):
                e[k] = c[0]
            cmd = " ".join(c[1] for c in cs)
        e.update(extra or {})
        self.ev(e, "%s %s %s %s %s %s" % (pre, op, t, o, cmd, tail))


def coef(r, big):
    k = r.random()
    if k < big:
        b = r.choice([20, 31, 32, 62, 63, 64, 70, 100, 128, 200])
        return r.choice([1, -1]) * r.choice([2**b, 2**b - 1, r.getrandbits(b) | 1])
    if k < big + 0.5:
        return r.choice([1, 1, -1, 2, -2, 3])
    return r.choice([1, -1]) * r.randint(1, 60)


def factor(r, nv, vs, d, big=0.05):
    """a random polynomial in the variables vs, of one of many shapes"""
    k = r.random()
    if not vs:
        return pyp.const(ZZ, nv, coef(r, big))
    v = r.choice(vs)
    c = lambda: coef(r, big)
    X = lambda v, e=1: pyp.var(ZZ, nv, v, e)
    if k < 0.15:                       # linear in v with constant rest
        return pyp.norm(ZZ, pyp.add(ZZ, pyp.scale(ZZ, X(v), c()), pyp.const(ZZ, nv, c())))
    if k < 0.30:                       # univariate dense or sparse
        n = r.randint(1, d)
        p = {}
        for e in range(n + 1):
            if e == n or r.random() < 0.6:
                p = pyp.add(ZZ, p, pyp.scale(ZZ, X(v, e), c()))
        return p
    if k < 0.45:                       # leading coefficient (in v) vanishing at small points
        w = r.choice(vs)
        lc = pyp.const(ZZ, nv, r.choice([1, 1, 2, -1]))
        if w != v:
            for a in r.sample([0, 1, -1, 2, -2, 3], r.randint(1, 3)):
                lc = pyp.mul(ZZ, lc, pyp.sub(ZZ, X(w), pyp.const(ZZ, nv, a)))
        p = pyp.mul(ZZ, lc, X(v, r.randint(1, max(1, d - 1))))
        return pyp.add(ZZ, p, pyp.rnd_poly(r, ZZ, nv, max(1, d - 1), r.randint(1, 3), 0.0, vs)) or X(v)
    if k < 0.55:                       # constant term / trailing structure
        return pyp.add(ZZ, pyp.rnd_poly(r, ZZ, nv, d, r.randint(1, 4), 0.0, vs), pyp.const(ZZ, nv, c()))
    if k < 0.62:                       # monomial
        m = pyp.rnd_mono(r, nv, d, vs=vs)
        return {m: c()}
    if k < 0.70:                       # difference of shifted powers
        w = r.choice(vs)
        n = r.randint(2, max(2, d))
        return pyp.add(ZZ, X(v, n), pyp.scale(ZZ, X(w, r.randint(1, n)), -1)) or X(v)
    p = {}
    for _ in range(r.randint(2, 7)):
        p[pyp.rnd_mono(r, nv, d, vs=vs)] = c()
    return pyp.norm(ZZ, p)


def sub_vars(r, nv):
    vs = list(range(1, nv + 1))
    k = r.random()
    if k < 0.55 or nv == 1:
        return vs
    return r.sample(vs, r.randint(1, nv))


def fac(r, nv, d, big):
    f = {}
    while not f:
        f = factor(r, nv, sub_vars(r, nv), d, big)
    return f


def size_ok(f, n=400, b=2500):
    return len(f) <= n and pyp.maxbits(f) <= b and pyp.deg(f) <= 60


def pair(r, nv, tier):
    """two polynomials, usually with a planted common part"""
    while True:
        d = r.choice([1, 2, 2, 3, 4, 6, 9] if nv <= 2 else [1, 2, 2, 3, 4])
        big = r.choice([0, 0, 0, 0.1, 0.5])
        k = r.random()
        if k < 0.03:
            f = g = {}
            if r.random() < 0.7:
                f = fac(r, nv, d, big)
            return (f, g) if r.random() < 0.5 else (g, f)
        if k < 0.08:
            f = pyp.const(ZZ, nv, coef(r, 0.2) * r.choice([1, 6, 12]))
            g = pyp.scale(ZZ, fac(r, nv, d, big), r.choice([1, 2, 6])) if r.random() < 0.7 else pyp.const(ZZ, nv, coef(r, 0.2) * 6)
            return (f, g) if r.random() < 0.5 else (g, f)
        h = pyp.const(ZZ, nv, 1)
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            h = pyp.mul(ZZ, h, fac(r, nv, d, big))
            if r.random() < 0.15:
                h = pyp.mul(ZZ, h, h)
        a, b = fac(r, nv, d, big), fac(r, nv, d, big)
        j = r.random()
        if j < 0.10:
            b = pyp.const(ZZ, nv, 1)
        elif j < 0.16:
            b = pyp.scale(ZZ, a, r.choice([1, -1, 2]))
        elif j < 0.24:
            a = pyp.add(ZZ, b, pyp.const(ZZ, nv, r.choice([1, -1, 2]))) or a     # close cofactors
        elif j < 0.32:                                                            # cofactors meeting at evaluation points
            v = r.randint(1, nv)
            b = pyp.add(ZZ, a, pyp.sub(ZZ, pyp.var(ZZ, nv, v), pyp.const(ZZ, nv, r.choice([0, 1, 2])))) or b
        f, g = pyp.mul(ZZ, h, a), pyp.mul(ZZ, h, b)
        c = r.choice([1, 1, 1, 2, 6, 12, -1, 2**31 - 1, 2**64])
        e = r.choice([1, 1, 1, 3, 4, 18, -1, 2**32, 2**64])
        f, g = pyp.scale(ZZ, f, c), pyp.scale(ZZ, g, e)
        if f and g and size_ok(f) and size_ok(g):
            return (f, g) if r.random() < 0.5 else (g, f)


P0, P1 = 2**64 - 59, 2**64 - 83           # the first two primes the modular algorithm uses


def prime_pair(r, nv):
    """inputs special modulo the first primes: vanishing terms or leading coefficients, cofactors that meet there"""
    while True:
        m = r.choice([P0, P0, P1, P0 * P1, P0 * P0])
        h, a, b = fac(r, nv, 2, 0), fac(r, nv, 2, 0), fac(r, nv, 2, 0)
        k = r.random()
        if k < 0.25:                     # the coefficients of the gcd vanish modulo one prime or the other
            f = pyp.add(ZZ, h, pyp.mul(ZZ, fac(r, nv, 2, 0), fac(r, nv, 2, 0)))
            pick = [lambda: r.getrandbits(63) | 1, lambda: P0 * r.choice([1, -1, 2]), lambda: P1 * r.choice([1, -1, 3]), lambda: P0 * P1,
                    lambda: P0 * r.getrandbits(40) + P1, lambda: r.getrandbits(120)]
            f = {m_: r.choice(pick)() for m_ in f}
            if f:
                top = max(f)
                f[top] = r.choice([1, 2, 3, P0 + 1, f[top]])
                return pyp.mul(ZZ, f, a), pyp.mul(ZZ, f, b)
            continue
        if k < 0.3:
            b = pyp.add(ZZ, a, pyp.scale(ZZ, b, m))
        if k > 0.4:
            h = pyp.add(ZZ, h, pyp.scale(ZZ, fac(r, nv, r.choice([1, 2, 3]), 0), m))
        if 0.3 < k < 0.6:
            a = pyp.add(ZZ, a, pyp.scale(ZZ, fac(r, nv, 2, 0), m))
        f, g = pyp.mul(ZZ, h, a), pyp.mul(ZZ, h, b)
        if f and g:
            return f, g


def digits(n, k):
    """the polynomial with coefficients in (-2^(k-1), 2^(k-1)] whose value at 2^k is n"""
    f, e = {}, 0
    while n:
        c = n % 2**k
        if c > 2**(k - 1):
            c -= 2**k
        if c:
            f[(e,)] = c
        n, e = (n - c) >> k, e + 1
    return f


def xi_pair(r):
    """values at a power of two that suggest another gcd than the polynomials have"""
    while True:
        k = r.choice([6, 8, 9, 12, 16, 20, 31, 32, 33, 40, 50, 57, 60, 61, 62, 63])
        at = lambda f: sum(c << (k * m[0]) for m, c in f.items())
        small = lambda d, b: pyp.norm(ZZ, {(e,): r.randint(-2**b, 2**b) or 1 for e in range(d + 1)})
        if r.random() < 0.5:                 # f(2^k) divides g(2^k) although f does not divide g
            f = small(r.choice([1, 1, 2, 3]), r.choice([1, 2, max(1, k - 7)]))
            g = digits(at(f) * (r.getrandbits(k * r.choice([1, 1, 2, 3])) | 1), k)
            if r.random() < 0.3:
                f = pyp.mul(ZZ, f, {(1,): 1, (0,): r.choice([1, -1, 2])})
        else:                                # a common factor with a tiny value at 2^k
            u = {(1,): 1, (0,): -2**k}
            for _ in range(r.choice([0, 0, 1])):
                u = pyp.mul(ZZ, u, {(1,): 1, (0,): r.choice([-1, 1, 0, 2])})
            u = pyp.add(ZZ, u, pyp.const(ZZ, 1, r.choice([1, -1, 2, 3, -4, 6])))
            if r.random() < 0.3:
                u = {m: c if (m[0] % 2 == 0) else -c for m, c in u.items()}
            unit = [{(1,): 1}, {(1,): 1, (0,): 1}, {(1,): 1, (0,): -1}, {(2,): 1}, {(2,): 1, (0,): 1}, {(2,): 1, (1,): 1, (0,): 1}]
            a, b = r.sample(unit, 2)
            f, g = pyp.mul(ZZ, u, a), pyp.mul(ZZ, u, b)
        if len(f) > 1 and len(g) > 1:
            return (f, g) if r.random() < 0.5 else (g, f)


def upair(r, tier):
    """univariate: heights and degrees around the algorithm switches"""
    if r.random() < 0.25:
        return xi_pair(r)
    k = r.random()
    if k < 0.5:
        return pair(r, 1, tier)
    if k < 0.65:
        return prime_pair(r, 1)
    d = lambda n: pyp.norm(ZZ, {(e,): coef(r, r.choice([0, 0.3])) for e in range(n + 1) if e == n or r.random() < 0.8})
    n = r.choice([3, 8, 15, 30])
    h, a, b = d(r.randint(0, n)), d(r.randint(1, n)), d(r.randint(1, n))
    bits = r.choice([1, 8, 60, 64, 120, 126, 127, 128, 129, 130, 200, 400])
    s = r.choice([1, 1, r.getrandbits(bits) | 1, 2**bits])
    f, g = pyp.mul(ZZ, h, a), pyp.mul(ZZ, h, b)
    if r.random() < 0.5:
        f = pyp.scale(ZZ, f, s)
    if r.random() < 0.5:
        g = pyp.add(ZZ, g, {}, 1)
    return f, g


def ppair(r, p, tier):
    R = pyp.Ring("P", p)
    rp = lambda n: pyp.norm(R, {(e,): r.randrange(p) for e in range(n + 1) if e == n or r.random() < r.choice([0.3, 1])})
    n = r.choice([1, 2, 4, 8, 20, 45])
    h, a, b = rp(r.randint(0, n)), rp(r.randint(0, n)), rp(r.randint(0, n))
    if r.random() < 0.1:
        b = pyp.power(R, 1, a, 2) if n < 10 else a
    f, g = pyp.mul(R, h, a), pyp.mul(R, h, b)
    return f, g


def gcd_case(r, tier, n):
    k = n % 10
    if k in (7, 8):
        p = r.choice(SMALLP + PRIMES[:6])
        h = One(r, 1, p=p)
        for _ in range(3):
            f, g = ppair(r, p, tier)
            h.call("gcd", "PU", [f, g])
            if f and g:
                h.call("xgcd", "PU", [f, g])
        return h.case("gcd-zp#%d" % n, seed=r.randrange(2**32))
    if k in (5, 6):
        h = One(r, 1)
        for _ in range(3):
            f, g = upair(r, tier)
            h.call("gcd", "ZU", [f, g])
            f, g = pair(r, 1, tier)
            if f and g and pyp.deg(f) + pyp.deg(g) < 14:
                h.call("xgcd", "ZU", [f, g])
        return h.case("gcd-uni#%d" % n, seed=r.randrange(2**32))
    nv = r.choice([1, 2, 2, 2, 3, 3, 3, 4, 5])
    h = One(r, nv)
    for _ in range(3):
        f, g = pair(r, nv, tier) if r.random() < 0.85 else prime_pair(r, nv)
        t = r.choice(["Zl", "Zl", "Zc", "Zg", "Zh"])
        h.call("gcd", t, [f, g])
        if r.random() < 0.3:
            h.call("gcd", t, [g, f])
        j = r.random()
        if f and j < 0.25:
            t = r.choice(["Zl", "Zc"])
            h.call(r.choice(["cont", "pp"]), t, [f])
        if j > 0.8 and nv <= 3:
            a, b = [pyp.rnd_poly(r, ZZ, nv, r.choice([0, 2, 2]), r.randint(1, 3), 0.0) for _ in "ab"]
            c = pyp.rnd_poly(r, ZZ, nv, r.choice([0, 1, 1]), 2, 0.0)
            h.call("xgcd", r.choice(["Zl", "Zc"]), [pyp.mul(ZZ, a, c), pyp.mul(ZZ, b, c)])
    return h.case("gcd-multi#%d" % n, seed=r.randrange(2**32))


def powered(r, nv, d, big):
    """a product of powers with content"""
    while True:
        f = pyp.const(ZZ, nv, r.choice([1, 1, -1, 2, 4, -6, 12, 2**64]))
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            e = r.choice([1, 1, 1, 2, 2, 3, 4, 5])
            f = pyp.mul(ZZ, f, pyp.power(ZZ, nv, fac(r, nv, d, big), e))
            if not size_ok(f, 300, 2000):
                break
        else:
            if f and size_ok(f, 250, 1500):
                return f


def sqf_case(r, tier, n):
    nv = r.choice([1, 1, 2, 2, 3, 3, 4])
    h = One(r, nv)
    T = ["Zl", "Zl", "Zc", "Zg", "Zh"]
    for _ in range(2):
        d = r.choice([1, 2, 3] if nv > 1 else [1, 2, 3, 5])
        big = r.choice([0, 0, 0.1])
        k = r.random()
        f = {} if k < 0.02 else pyp.const(ZZ, nv, coef(r, 0.2)) if k < 0.04 else powered(r, nv, d, big)
        h.call("sqff", r.choice(T), [f])
        h.call("sqf", r.choice(T), [f])
        g = fac(r, nv, d, big)
        h.call("sqf", r.choice(T), [pyp.mul(ZZ, g, fac(r, nv, d, big))])
    # lists sharing factors
    pool = [fac(r, nv, r.choice([1, 1, 2]), 0) for _ in range(r.choice([2, 3, 4, 4, 6, 8]))]
    fs = []
    wide = len(pool) > 4
    for _ in range(r.choice([4, 6, 9]) if wide else r.choice([1, 2, 3, 4, 5])):
        f = pyp.const(ZZ, nv, r.choice([1, 1, -1, 2, -3, 6]))
        for _ in range(r.choice([1, 1, 2, 3, 4, 6]) if wide else r.choice([0, 1, 1, 2, 3])):
            g = pyp.mul(ZZ, f, pyp.power(ZZ, nv, pyp.scale(ZZ, r.choice(pool), r.choice([1, 1, -1, 2])), r.choice([1, 1, 2, 3])))
            if size_ok(g, 120, 600):
                f = g
        fs.append(f)
    if r.random() < 0.1:
        fs.insert(r.randint(0, len(fs)), {})
    h.call("sqfb", r.choice(T), fs, many="fs")
    return h.case("sqf#%d" % n, seed=r.randrange(2**32))


def check(prop, tier, seed, wd, kf):
    r = random.Random("%s-%d" % (prop, seed))
    N = {"C11": (5000, 30000), "C12": (5000, 30000)}[prop][tier == "thorough"]
    mk = {"C11": gcd_case, "C12": sqf_case}[prop]
    cases = [mk(random.Random("%s-%d-%d" % (prop, seed, n)), tier, n) for n in range(N)]
    return area.run(prop, wd, kf, "gcd", "TraceGcd", cases, limit=30,
                    rule="distinct histories of gcd/content/squarefree calls on polynomials with planted common or repeated factors; every answer decided by exact division plus modular coprimality certificates")
