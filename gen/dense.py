"""Dense univariate polynomials over Z/p: register machine histories (C21)."""
import random
from vlib import area
from vlib.core import Case, J
from .num import PRIMES

BIGP = [2**32 - 5, 2**32 + 15, 2**61 - 1, 2**63 - 25, 2**63 + 29, 2**64 - 59, 2**64 - 83]
NREG = 6


def strip(a):
    while a and not a[-1]:
        a.pop()
    return a


def mul(a, b, p):
    if not a or not b:
        return []
    w = (2 * p.bit_length() + min(len(a), len(b)).bit_length() + 8) // 8
    pk = lambda x: int.from_bytes(b"".join(c.to_bytes(w, "little") for c in x), "little")
    n = len(a) + len(b) - 1
    s = (pk(a) * pk(b)).to_bytes(w * (n + 1), "little")
    return strip([int.from_bytes(s[i * w:i * w + w], "little") % p for i in range(n)])


def add(a, b, p, k=1):
    if len(a) < len(b):
        a = a + [0] * (len(b) - len(a))
    o = list(a)
    for i, c in enumerate(b):
        o[i] = (o[i] + k * c) % p
    return strip(o)


def divmod_(a, b, p):
    a, n = list(a), len(b)
    li = pow(b[-1], -1, p)
    q = [0] * max(0, len(a) - n + 1)
    for i in range(len(a) - n, -1, -1):
        t = a[i + n - 1] * li % p
        q[i] = t
        if t:
            for j in range(n):
                a[i + j] = (a[i + j] - t * b[j]) % p
    return strip(q), strip(a[:n - 1])


def rnd(r, p, n):
    """a random polynomial with n coefficients"""
    if n <= 0:
        return []
    k = r.random()
    if k < 0.55:
        c = [r.randrange(p) for _ in range(n)]
    elif k < 0.75:                                    # extreme coefficients: carries of the lazy sums
        c = [r.choice([p - 1, p - 1, p - 2, 0, 1, p // 2, (p + 1) // 2]) % p for _ in range(n)]
    elif k < 0.85:
        c = [p - 1] * n
    else:                                             # sparse
        c = [0] * n
        for _ in range(r.randint(1, 5)):
            c[r.randrange(n)] = r.randrange(p)
    if not c[-1]:
        c[-1] = r.randrange(1, p)
    return c


def mmul(A, B, p):
    return [[add(mul(A[i][0], B[0][j], p), mul(A[i][1], B[1][j], p), p) for j in (0, 1)] for i in (0, 1)]


def cfrac(qs, p):
    if len(qs) == 1:
        return [[qs[0], [1]], [[1], []]]
    h = len(qs) // 2
    return mmul(cfrac(qs[:h], p), cfrac(qs[h:], p), p)


def profile(r, n):
    """degrees of the quotients of a Euclidean sequence, sum about n"""
    k = r.random()
    d, s = [], 0
    small = r.choice([[1], [1], [1, 1, 1, 2], [1, 2, 3], [2]])
    jumps = 0 if k < 0.15 else r.choice([1, 1, 2, 3, 5])
    while s < n:
        x = r.choice(small)
        d.append(x)
        s += x
    for _ in range(jumps):
        big = r.choice([r.randint(5, 30), r.randint(15, 60), r.randint(40, max(41, n // 3)), r.randint(40, max(41, n // 2))])
        i = r.randrange(len(d)) if r.random() < 0.75 else r.choice([0, len(d) // 2, len(d) // 4, 3 * len(d) // 4, len(d) - 1])
        j, t = i, 0                                   # the jump replaces quotients of the same total degree
        while j < len(d) and t < big:
            t += d[j]
            j += 1
        d[i:j] = [t or big]
    return d


def quotient(r, p, d):
    if r.random() < 0.2 and d > 3:
        q = [0] * (d + 1)
        q[-1] = r.randrange(1, p)
        if r.random() < 0.5:
            q[0] = r.randrange(p)
        return q
    return rnd(r, p, d + 1)


def pair(r, p, n, g):
    """(a, b) with gcd g, deg a about n, from a sequence of quotients"""
    m = max(2, n - len(g) + 1)
    M = cfrac([quotient(r, p, d) for d in profile(r, m)], p)
    return mul(M[0][0], g, p), mul(M[1][0], g, p)


class Hist:
    def __init__(self, r, p):
        self.r, self.p, self.st = r, p, []
        self.v = [None] * NREG                        # value, "?" (some nonzero polynomial), or None (no modulus / unknown)
        self.has = [False] * NREG                     # holds a polynomial modulo p

    def ev(self, e, cmd):
        self.st.append((e, cmd))

    def set(self, k, c, p=None):
        p = p or self.p
        self.ev({"op": "set", "d": k, "p": J(p), "c": [J(x) for x in c]}, "set %d %d %d %s" % (k, p, len(c), " ".join(map(str, c))))
        self.v[k], self.has[k] = strip(list(c)), p == self.p

    def bin(self, op, d, x, y, v):
        self.ev({"op": op, "d": d, "x": x, "y": y}, "%s %d %d %d" % (op, d, x, y))
        self.v[d], self.has[d] = v, True

    def divrem(self, q, d, x, y, v=(None, None)):
        self.ev({"op": "divrem", "q": q, "d": d, "x": x, "y": y}, "divrem %d %d %d %d" % (q, d, x, y))
        self.v[q], self.v[d] = v
        self.has[q] = self.has[d] = True

    def un(self, op, x):
        self.ev({"op": op, "x": x}, "%s %d" % (op, x))

    def all(self):
        self.ev({"op": "all"}, "all")

    def done(self, tag, seed):
        self.all()
        return Case(tag, self.st, seed)


def step(r, h, length):
    p = h.p
    have = [i for i in range(NREG) if h.has[i]]
    k = r.random()
    if len(have) < 3 or k < 0.12:
        h.set(r.randrange(NREG), rnd(r, p, length()) if r.random() < 0.95 else [])
        return
    x, y, d = r.choice(have), r.choice(have), r.randrange(NREG)
    if r.random() < 0.25:
        d = r.choice([x, y])
    vx, vy = h.v[x], h.v[y]
    big = lambda v: not isinstance(v, list) or len(v) > 400
    if k < 0.20 and isinstance(vx, list):
        c = r.choice([0, 1, p - 1, r.randrange(p), r.randrange(p)])
        h.ev({"op": "scale", "d": x, "k": J(c)}, "scale %d %d" % (x, c))
        h.v[x] = strip([a * c % p for a in vx])
    elif k < 0.34:
        op = r.choice(["add", "sub", "sub"])
        h.bin(op, d, x, y, add(vx, vy, p, 1 if op == "add" else -1) if isinstance(vx, list) and isinstance(vy, list) else None)
    elif k < 0.58:
        if big(vx) or big(vy) or len(vx) + len(vy) > 900:
            return
        h.bin("mul", d, x, y, mul(vx, vy, p))
    elif k < 0.80 and vy and vy != "?":
        q = r.choice([i for i in range(NREG) if i != d])
        v = (None, None)
        if isinstance(vx, list) and len(vx) * len(vy) < 4000:
            v = divmod_(vx, vy, p)
        h.divrem(q, d, x, y, v)
    elif k < 0.90:
        v = None
        if isinstance(vx, list) and isinstance(vy, list) and len(vx) * len(vy) < 2500:
            v = "?" if vx or vy else []
        h.bin("gcd", d, x, y, v)
        if v == "?":
            h.set(d, rnd(r, p, length()))
    elif k < 0.93:
        h.ev({"op": "copy", "d": d, "x": x}, "copy %d %d" % (d, x)) if r.random() < 0.5 else h.ev({"op": "dup", "d": d, "x": x}, "dup %d %d" % (d, x))
        h.v[d], h.has[d] = h.v[x], True
    elif k < 0.96:
        h.un("sparse", x)
    elif k < 0.98:
        a, b = [r.choice([0, 1, p - 1, p // 2, r.randrange(p), r.randrange(p)]) % p for _ in (0, 1)]
        h.ev({"op": "nmul", "x": x, "a": J(a), "b": J(b)}, "nmul %d %d %d" % (x, a, b))
        a = a or 1
        h.ev({"op": "ninv", "x": x, "a": J(a)}, "ninv %d %d" % (x, a))
    elif k < 0.99:
        h.ev({"op": "def", "d": d}, "def %d" % d)
        h.v[d], h.has[d] = None, False
    else:
        h.ev({"op": "new", "d": d, "p": J(p)}, "new %d %d" % (d, p))
        h.v[d], h.has[d] = [], True


def case(r, tier, n):
    k = r.random()
    small = [2, 3, 5, 7, 101, 65537]
    p = r.choice(small) if r.random() < 0.3 else r.choice(BIGP) if r.random() < 0.6 else r.choice([q for q in PRIMES if q < 2**64])
    h = Hist(r, p)
    if k < 0.35:
        top = r.choice([4, 10, 20, 40])
        for _ in range(30):
            step(r, h, lambda: r.randint(0, top))
        if r.random() < 0.3:                          # another field in the same registers
            h.p = r.choice(BIGP + small)
            if h.p != p:
                h.has = [False] * NREG
                h.v = [None] * NREG
                for _ in range(10):
                    step(r, h, lambda: r.randint(0, top))
        return h.done("small#%d" % n, r.randrange(2**32))
    if k < 0.55:
        ln = lambda: r.choice([r.randint(1, 20), r.randint(12, 20), r.randint(28, 36), r.randint(60, 70), r.randint(1, 140), r.randint(100, 300)])
        for _ in range(14):
            step(r, h, ln)
        return h.done("medium#%d" % n, r.randrange(2**32))
    top = r.choice([345, 360, 400, 400, 500, 500, 700] + ([1000, 1500, 2200] if tier == "thorough" else [900]))
    for _ in range(r.choice([1, 2])):
        g = rnd(r, p, r.choice([1, 1, 2, r.randint(3, 40), r.randint(50, top // 2), r.randint(1, max(2, top - 345))]))
        a, b = pair(r, p, top, g)
        if len(a) > 2.2 * top:
            a, b = pair(r, p, top, [1])
        j = r.random()
        if j < 0.1:                                   # a far longer first operand
            a, b = add(mul(a, rnd(r, p, r.randint(30, top // 2)), p), b, p), a
        elif j < 0.15:
            a = add(a, b, p)
        if r.random() < 0.1:
            a = rnd(r, p, top)                        # unrelated
        if r.random() < 0.3:
            a, b = b, a
        h.set(0, a)
        h.set(1, b)
        d = r.choice([2, 2, 2, 0, 1])
        h.bin("gcd", d, 0, 1, None)
        if d == 2 and r.random() < 0.5:
            h.divrem(3, 4, 0, 2)
            h.bin("mul", 5, 3, 2, None)
        if r.random() < 0.3 and d == 2:
            h.bin("gcd", 3, r.choice([0, 1]), 2, None)
    return h.done("large#%d" % n, r.randrange(2**32))


def check(prop, tier, seed, wd, kf):
    N = {"C21": (1200, 8000)}[prop][tier == "thorough"]
    cases = [case(random.Random("%s-%d-%d" % (prop, seed, n)), tier, n) for n in range(N)]
    return area.run(prop, wd, kf, "dense", "TraceDense", cases, limit=30, flags=("-O1", "-DDEBUG", "-fsanitize=address"),
                    rule="distinct register histories over Z/p; long operands come from planted Euclidean quotient-degree sequences (normal, with jumps, sparse quotients) with a planted gcd")
