"""Factorization (C13, C14, C15): products of polynomials that come with a certificate of irreducibility."""
import itertools, random
from vlib import area
from . import pyp
from .gcd import One, coef
from .num import PRIMES
from .poly import SMALLP
from .pyp import ZZ
from vlib.core import J
from fractions import Fraction

SMALL = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127,
         1009, 1013, 1019, 1021, 1031, 1033, 1039, 1049, 1051, 1061]


# dense polynomials modulo a small prime (constant term first)
def strip(a):
    while a and not a[-1]:
        a.pop()
    return a


def mrem(a, b, p):
    a = list(a)
    i = pow(b[-1], -1, p)
    n = len(b)
    while len(a) >= n:
        c = a[-1] * i % p
        if c:
            s = len(a) - n
            for k in range(n - 1):
                a[s + k] = (a[s + k] - c * b[k]) % p
        a.pop()
    return strip(a)


def mquo(a, b, p):
    a = list(a)
    i = pow(b[-1], -1, p)
    n = len(b)
    q = [0] * max(0, len(a) - n + 1)
    while len(a) >= n:
        c = a[-1] * i % p
        s = len(a) - n
        q[s] = c
        for k in range(n):
            a[s + k] = (a[s + k] - c * b[k]) % p
        a.pop()
    return q


def mmul(a, b, p):
    if not a or not b:
        return []
    o = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                o[i + j] += x * y
    return strip([x % p for x in o])


def mgcd(a, b, p):
    while b:
        a, b = b, mrem(a, b, p)
    return a


def ddf(f, p):
    """degrees of the irreducible factors of squarefree f, or None when f is not squarefree"""
    d = strip([i * c % p for i, c in enumerate(f)][1:])
    if not d or len(mgcd(f, d, p)) > 1:
        return None
    out = []
    f = list(f)
    h = mrem([0, 1], f, p)
    k = 0
    while len(f) > 1:
        k += 1
        if 2 * k > len(f) - 1:
            out.append(len(f) - 1)
            break
        r, e = [1], p                       # h^p mod f
        b = h
        while e:
            if e & 1:
                r = mrem(mmul(r, b, p), f, p)
            e >>= 1
            if e:
                b = mrem(mmul(b, b, p), f, p)
        h = r
        t = list(h) + [0] * (2 - len(h))
        t[1] = (t[1] - 1) % p
        g = mgcd(f, strip(t), p)
        if len(g) > 1:
            out += [k] * ((len(g) - 1) // k)
            f = mquo(f, g, p)
            h = mrem(h, f, p)
    return out


def sums(ds):
    s = {0}
    for d in ds:
        s |= {x + d for x in s}
    return s


def image(f, v, pt, p):
    o = [0] * (pyp.deg(f, v) + 1)
    for m, c in f.items():
        x = c % p
        for i, e in enumerate(m):
            if i != v - 1 and e:
                x = x * pow(pt[i], e, p) % p
        o[m[v - 1]] = (o[m[v - 1]] + x) % p
    return strip(o)


def jointly_coprime(fs, nv):
    """sure (not just probable) coprimality of integer polynomials, decided like the specification does"""
    from math import gcd
    g = 0
    for f in fs:
        for c in f.values():
            g = gcd(g, c)
    if g != 1:
        return False
    for v in range(1, nv + 1):
        if all(v in pyp.used(f) for f in fs):
            ok = False
            for k in range(3):
                p = 1000003
                pt = [pow(7 + 12 * (k + 1), 1000 + 37 * (i + 1) + k + 1, p) for i in range(nv)]
                ims = [image(f, v, pt, p) for f in fs]
                if not any(len(i) - 1 == pyp.deg(f, v) for i, f in zip(ims, fs)):
                    continue
                h = []
                for i in ims:
                    h = mgcd(i, h, p) if h else i
                if len(h) == 1:
                    ok = True
                    break
            if not ok:
                return False
    return True


def coeffs(f, v):
    return [pyp.coeff(f, v, d) for d in {m[v - 1] for m in f}]


def is_prime(n):
    if n < 2:
        return False
    for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % b == 0:
            return n == b
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(b, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def zimage(f, v, pt):
    o = [0] * (pyp.deg(f, v) + 1)
    for m, c in f.items():
        for i, e in enumerate(m):
            if i != v - 1:
                c *= pt[i] ** e
        o[m[v - 1]] += c
    return o


def certify(r, nv, f, hard=False):
    """a certificate (as the specification's CLPolyFactor wants it) that f is irreducible over Q and primitive, or None"""
    from math import gcd
    us = sorted(pyp.used(f))
    if not us:
        return None
    g = 0
    for c in f.values():
        g = gcd(g, c)
    if g != 1:
        return None
    for v in us:
        if pyp.deg(f, v) == 1 and jointly_coprime(coeffs(f, v), nv):
            return ["lin", v]
    vs = list(us)
    r.shuffle(vs)
    vs.sort(key=lambda v: pyp.deg(f, v))
    for v in vs:
        n = pyp.deg(f, v)
        if not jointly_coprime(coeffs(f, v), nv):
            return None                              # content: reducible
        S, hs = set(range(n + 1)), []
        for t in range(6 if hard else 14):
            pi = r.randrange(len(SMALL))
            p = SMALL[pi]
            pt = [r.randrange(p) if i + 1 in us else 0 for i in range(nv)]
            im = image(f, v, pt, p)
            if len(im) - 1 != n:
                continue
            d = ddf(im, p)
            if d is None:
                continue
            T = S & sums(d)
            if T != S:
                S = T
                hs.append([pi + 1, pt])
            if S == {0, n}:
                return ["deg", v, hs]
    for v in vs:
        if max(abs(c) for c in f.values()) > 2**40 or pyp.deg(f, v) > 16:
            continue
        for pt in [[0] * nv] + [[r.randint(-3, 3) for _ in range(nv)] for _ in range(4)]:
            z = zimage(f, v, pt)
            if not z[-1]:
                continue
            H = max(abs(c) for c in z[:-1]) // abs(z[-1]) + 2
            base = H + r.randint(1, 40)
            for k in range(base, base + 400):
                val = 0
                for c in reversed(z):
                    val = val * k + c
                val = abs(val)
                for d in range(1, min(k - H, 30) + 1):
                    if val % d == 0 and val // d > d and is_prime(val // d):
                        return ["val", v, [pt[i] if i != v - 1 else 0 for i in range(nv)], J(k), J(d)]
            if len(us) == 1:
                break
    return None


# ---------------------------------------------------------------- irreducible material --
def cyclo(n):
    """coefficients of the n-th cyclotomic polynomial"""
    a = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            b = cyclo(d)
            q = [0] * (len(a) - len(b) + 1)
            a = list(a)
            for i in range(len(q) - 1, -1, -1):
                q[i] = a[i + len(b) - 1] // b[-1]
                for j, y in enumerate(b):
                    a[i + j] -= q[i] * y
            a = q
    return a


def dense(nv, v, a):
    return pyp.norm(ZZ, {tuple(e if i == v - 1 else 0 for i in range(nv)): c for e, c in enumerate(a)})


def swinnerton(ps):
    """minimal polynomial of sum of square roots"""
    f = [0, 1]
    for p in ps:
        # f(x - s) f(x + s), s^2 = p:  work with pairs a + b s
        n = len(f)
        A, B = [0] * n, [0] * n
        pw = [([1], [0])]
        for _ in range(n - 1):
            a, b = pw[-1]
            a2, b2 = [0] + a, [0] + b
            a2 = [x + p * y for x, y in itertools.zip_longest(a2, b, fillvalue=0)]
            b2 = [x + y for x, y in itertools.zip_longest(b2, a, fillvalue=0)]
            pw.append((a2, b2))
        for c, (a, b) in zip(f, pw):
            for i, x in enumerate(a):
                A[i] += c * x
            for i, x in enumerate(b):
                B[i] += c * x
        g = [0] * (2 * n - 1)
        for i, x in enumerate(A):
            for j, y in enumerate(A):
                g[i + j] += x * y
        for i, x in enumerate(B):
            for j, y in enumerate(B):
                g[i + j] -= p * x * y
        f = g
    return f


def shift(a, k):
    """a(x + k)"""
    o = [0]
    for c in reversed(a):
        o = [x + k * y for x, y in itertools.zip_longest([0] + o, o, fillvalue=0)]
        o[0] += c
    return o


def uirr(r, nv, v, dmax, big=0.1):
    """(f, certificate): an irreducible polynomial in v alone"""
    while True:
        k = r.random()
        if k < 0.18:                                             # linear
            f = dense(nv, v, [coef(r, big), r.choice([1, 1, 1, -1, 2, 3, 6, coef(r, big)])])
        elif k < 0.33:
            n = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30])
            a = cyclo(n)
            if len(a) - 1 > dmax:
                continue
            if r.random() < 0.5:
                return dense(nv, v, a), ["cyc", v, n]
            f = dense(nv, v, shift(a, r.randint(-3, 3)))
        elif k < 0.48 and dmax >= 4:                             # splits into small factors modulo every prime
            ps = r.sample([-1, 2, 3, -2, 5, 7, -3], r.choice([2, 2, 3]) if dmax >= 8 else 2)
            a = swinnerton(ps)
            f = dense(nv, v, shift(a, r.choice([0, 0, 1, -1, 2])))
        elif k < 0.58:                                           # Eisenstein shape
            n = r.randint(2, max(2, dmax))
            p = r.choice([2, 3, 5, 7])
            f = dense(nv, v, [p * r.choice([1, -1])] + [p * r.randint(-3, 3) for _ in range(n - 1)] + [r.choice([1, 1, p + 1])])
        else:
            n = r.randint(2, max(2, dmax))
            f = dense(nv, v, [coef(r, big) if e == n or r.random() < 0.7 else 0 for e in range(n + 1)])
        c = certify(r, nv, f)
        if c:
            return f, c


def mirr(r, nv, vs, dmax, big=0.03):
    """(f, certificate): an irreducible polynomial, usually in several of the variables vs"""
    while True:
        k = r.random()
        if k < 0.1:
            return uirr(r, nv, r.choice(vs), min(4, dmax), big)
        ws = r.sample(vs, r.randint(min(2, len(vs)), len(vs)))
        v = r.choice(ws)
        X = lambda v, e=1: pyp.var(ZZ, nv, v, e)
        if k < 0.3:                                              # monic-ish in v
            n = r.randint(1, dmax)
            f = pyp.add(ZZ, X(v, n), pyp.rnd_poly(r, ZZ, nv, dmax, r.randint(1, 4), 0.0, ws))
        elif k < 0.45:                                           # structured leading coefficient
            lcs = pyp.const(ZZ, nv, r.choice([1, 1, 2, -3]))
            for _ in range(r.randint(1, 2)):
                w = r.choice([x for x in ws if x != v] or [v])
                if w != v:
                    lcs = pyp.mul(ZZ, lcs, pyp.add(ZZ, X(w), pyp.const(ZZ, nv, r.choice([0, 0, 1, -1, 2]))))
            f = pyp.add(ZZ, pyp.mul(ZZ, lcs, X(v, r.randint(1, max(1, dmax - 1)))), pyp.rnd_poly(r, ZZ, nv, max(1, dmax - 1), r.randint(1, 3), 0.0, ws))
        elif k < 0.6:                                            # symmetric, homogeneous
            n = r.randint(1, dmax if nv == 2 else min(2, dmax))       # sums of many equal powers make the evaluation-point search very slow
            f = {}
            for w in ws[:3]:
                f = pyp.add(ZZ, f, pyp.scale(ZZ, X(w, n), r.choice([1, 1, -1, 2])))
            f = pyp.add(ZZ, f, pyp.const(ZZ, nv, r.choice([0, 1, -1, 3])))
        elif k < 0.7:                                            # multilinear
            f = {}
            for _ in range(r.randint(2, 5)):
                f[tuple(1 if i + 1 in ws and r.random() < 0.5 else 0 for i in range(nv))] = coef(r, big)
            f = pyp.norm(ZZ, f)
        else:
            f = {}
            for _ in range(r.randint(2, 6)):
                f[pyp.rnd_mono(r, nv, dmax, vs=ws)] = coef(r, big)
            f = pyp.norm(ZZ, f)
        if not f:
            continue
        c = certify(r, nv, f, hard=True)
        if c:
            return f, c


class Fac(One):
    def fac(self, t, gs, c):
        """factor c * prod g^e;  gs: [(g, e, certificate)]"""
        nv = self.tnv(t)
        val = pyp.const(ZZ, nv, 1)
        for g, e, _ in gs:
            val = pyp.mul(ZZ, val, pyp.power(ZZ, nv, g, e))
        R = self.ring(t)
        val = pyp.scale(R, val, c)
        gh = [[pyp.terms_js(ZZ, list(g.items())), e, cert] for g, e, cert in gs]
        self.call("fac", t, [val], pre="f", names=("f",), extra={"gh": gh, "c": pyp.cj(R, R.c(c))})

    def facps(self, f, q, j=0):
        """x^j f(x^q), q a power of the characteristic"""
        e0 = len(self.st)
        self.call("facps", "PU", [f], pre="f", names=("f",), extra={"j": j})
        ev, cmd = self.st[e0]
        self.st[e0] = (ev, cmd.replace("f facps PU - ", "f fac PS - %d %d " % (q, j), 1))

    def facp(self, f):
        e0 = len(self.st)
        self.call("facp", "PU", [f], pre="f", names=("f",))
        ev, cmd = self.st[e0]
        self.st[e0] = (ev, cmd.replace("f facp", "f fac", 1))


def content(r, q=False):
    c = r.choice([1, 1, 1, -1, 2, -6, 12, 30, 2**31 - 1, 2**64, -(2**70)])
    return Fraction(c, r.choice([1, 1, 2, 3, 6, 35, 2**33])) if q else c


def assoc(f):
    """up to sign"""
    n = {m: -c for m, c in f.items()}
    return min(tuple(sorted(f.items())), tuple(sorted(n.items())))


def distinct(gs):
    seen, out = set(), []
    for g, e, c in gs:
        k = assoc(g)
        if k not in seen:
            seen.add(k)
            out.append((g, e, c))
    return out


def uni_list(r, tier, nv, v):
    k = r.random()
    if k < 0.2:                                                  # many linear factors (Wilkinson-like)
        n = r.randint(3, 14)
        return distinct([(dense(nv, v, [r.randint(-12, 12), 1]), r.choice([1, 1, 1, 2]), ["lin", v]) for _ in range(n)])
    if k < 0.32:                                                 # x^n - 1 and relatives
        n = r.choice([4, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30])
        return [(dense(nv, v, cyclo(d)), 1, ["cyc", v, d]) for d in range(1, n + 1) if n % d == 0]
    if k < 0.5:                                                  # several factors, each splitting modulo every prime
        gs = []
        for _ in range(r.choice([2, 2, 3])):
            while True:
                n = r.choice([8, 12, 15, 16, 20, 24, 0])
                if n:
                    a, cert = cyclo(n), ["cyc", v, n]
                    s = r.choice([0, 1, -1])
                    f = dense(nv, v, shift(a, s))
                    if s:
                        cert = certify(r, nv, f)
                else:
                    f = dense(nv, v, shift(swinnerton(r.sample([-1, 2, 3, -2, 5, 7, -3], r.choice([2, 2, 3]))), r.choice([0, 1, -1])))
                    cert = certify(r, nv, f)
                if cert:
                    break
            gs.append((f, 1, cert))
        return distinct(gs)
    gs = []
    dmax = r.choice([1, 2, 3, 4, 6, 8])
    for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
        f, c = uirr(r, nv, v, dmax, r.choice([0, 0.1, 0.4]))
        gs.append((f, r.choice([1, 1, 1, 1, 2, 3, 4]), c))
    gs = distinct(gs)
    if r.random() < 0.15:                                        # factors close to each other
        g = gs[0][0]
        h = pyp.add(ZZ, g, pyp.const(ZZ, nv, r.choice([1, -1, 2**20, 2**64])))
        c = h and certify(r, nv, h)
        if c:
            gs = distinct(gs + [(h, 1, c)])
    return gs


def total(gs):
    return sum(pyp.deg(g) * e for g, e, _ in gs)


def uni_case(r, tier, n):
    h = Fac(r, 1)
    h.ev({"op": "setup"}, "large %d" % (r.random() < 0.25))
    for _ in range(3):
        while True:
            gs = uni_list(r, tier, 1, 1)
            if total(gs) <= (60 if tier == "thorough" else 40):
                break
        k = r.random()
        if k < 0.03:
            gs = []
        t = r.choice(["Zl", "ZU", "ZU", "Zg", "Zc", "Ql", "Qg", "Qc"])
        c = content(r, t[0] == "Q")
        h.fac(t, gs, 0 if k < 0.01 else c)
    return h.case("fac-uni#%d" % n, seed=r.randrange(2**32))


def terms_of(nv, gs):
    f = pyp.const(ZZ, nv, 1)
    for g, e, _ in gs:
        for _ in range(e):
            f = pyp.mul(ZZ, f, g)
            if len(f) > 400:
                return f
    return f


def multi_case(r, tier, n):
    nv = r.choice([2, 2, 2, 3, 3, 3, 3, 4])
    h = Fac(r, nv)
    vs = list(range(1, nv + 1))
    for _ in range(2):
        while True:
            dmax = r.choice([1, 2, 2, 3, 4] if nv == 2 else [1, 2, 2, 3] if nv == 3 else [1, 1, 2])
            gs = []
            for _ in range(r.choice([1, 2, 2, 2, 3, 3, 4] if nv < 4 else [1, 2, 2, 2])):
                f, c = mirr(r, nv, vs, dmax, r.choice([0, 0, 0.05]))
                gs.append((f, r.choice([1, 1, 1, 1, 2, 3]), c))
            gs = distinct(gs)
            if r.random() < 0.15:                                # a power of a variable
                v = r.choice(vs)
                gs = distinct(gs + [(pyp.var(ZZ, nv, v), r.choice([1, 2, 5]), ["lin", v])])
            if r.random() < 0.15 and len(gs) < 3:                # close factors
                g = gs[0][0]
                f = pyp.add(ZZ, g, pyp.const(ZZ, nv, r.choice([1, -1, 2])))
                c = f and certify(r, nv, f, hard=True)
                if c:
                    gs = distinct(gs + [(f, 1, c)])
            f = terms_of(nv, gs)
            if total(gs) <= (18 if nv == 2 else 10) and len(f) <= (250 if nv == 2 else 80):
                break
        t = r.choice(["Zl", "Zl", "Zg", "Zc", "Ql", "Qg"])
        h.fac(t, gs, content(r, t[0] == "Q"))
    return h.case("fac-multi#%d" % n, seed=r.randrange(2**32))


def irreducible(r, R, p, n):
    """a monic polynomial of degree n over Z/p, irreducible unless the search was unlucky"""
    for _ in range(200):
        f = [r.randrange(p) for _ in range(n)] + [1]
        if f[0] and ddf(f, p) == [n]:
            break
    return pyp.norm(R, {(e,): c for e, c in enumerate(f)})


def zp_case(r, tier, n):
    p = r.choice([2, 2, 2, 3, 3, 5, 7] + SMALLP + PRIMES)
    R = pyp.Ring("P", p)
    h = Fac(r, 1, p=p)
    big = p > 1000
    rp = lambda n: pyp.norm(R, {(e,): r.randrange(p) for e in range(n + 1) if e == n or r.random() < r.choice([0.3, 1])})
    lin = lambda: pyp.add(R, pyp.var(R, 1, 1), pyp.const(R, 1, r.randrange(p)))
    for _ in range(4):
        while True:
            f = pyp.const(R, 1, r.randrange(1, p))
            k = r.random()
            if k < 0.25:
                for _ in range(r.randint(1, 8)):
                    f = pyp.mul(R, f, lin())
            elif k < 0.35 and not big:                           # x^(p^k) - x and divisors
                m = r.choice([2, 3, 4, 6])
                if p**m <= 40:
                    f = pyp.sub(R, pyp.var(R, 1, 1, p**m), pyp.var(R, 1, 1))
                else:
                    f = pyp.sub(R, pyp.var(R, 1, 1, r.randint(2, 30)), pyp.const(R, 1, 1))
            elif k < 0.42 and p < 6:                             # factors of one large degree
                m = r.choice([6, 7, 9, 12, 14, 16, 18, 20])
                for _ in range(2):
                    f = pyp.mul(R, f, irreducible(r, R, p, m))
            elif k < 0.6 and p < 12:                             # multiplicities divisible by p
                for _ in range(r.randint(1, 3)):
                    g = rp(r.randint(1, 3))
                    if g:
                        f = pyp.mul(R, f, pyp.power(R, 1, g, r.choice([p, p, p * p if p < 4 else p, p + 1, 2 * p, 1])))
            else:
                for _ in range(r.randint(1, 3)):
                    g = rp(r.randint(1, 10 if big else 14))
                    if g:
                        f = pyp.mul(R, f, pyp.power(R, 1, g, r.choice([1, 1, 1, 2, 3])))
            if f and pyp.deg(f) <= (28 if big else 64):
                break
        if r.random() < 0.12 and pyp.deg(f) <= 40:
            k = 1
            j = r.choice([1, 1, 2, p - 1, 40, 3]) % p if (0,) in f and r.random() < .5 else 0   # then gcds are dense
            while r.random() < 0.85 and pyp.deg(f) * p ** (k + 1) < (2**16 if j else 2**60):
                k += 1
            if pyp.deg(f) * p**k < 2**60:
                h.facps(f, p**k, j if pyp.deg(f) * p**k < 2**18 and j < 1000 else 0)
                continue
        h.facp(f)
    return h.case("fac-zp#%d" % n, seed=r.randrange(2**32))


def check(prop, tier, seed, wd, kf):
    from . import models
    N = {"C13": (2500, 10000), "C14": (2400, 12000), "C15": (3000, 9000)}[prop][tier == "thorough"]
    mk = {"C13": uni_case, "C14": multi_case, "C15": zp_case}[prop]
    cases = [mk(random.Random("%s-%d-%d" % (prop, seed, n)), tier, n) for n in range(N)]
    return area.run(prop, wd, kf, "factor", "TraceFactor", cases, models=[models.laws("ModPoly")] if prop == "C15" else [], limit=60 if prop == "C14" else 30, patience=420 if prop == "C14" else None,
                    rule="distinct products of polynomials whose irreducibility the specification certifies; the answer must be the certified factorization up to units and order"
                    if prop != "C15" else "distinct polynomials over Z/p; every listed factor is decided irreducible by its distinct-degree pattern")
