"""A small exact polynomial calculator for the generators (it only chooses inputs; TLC decides)."""
from fractions import Fraction
from vlib.core import J


class Ring:
    def __init__(self, k, p=0):
        self.k, self.p = k, p

    def js(self):
        return {"k": "P", "p": J(self.p)} if self.k == "P" else {"k": self.k}

    def c(self, x):
        if self.k == "P":
            if isinstance(x, Fraction):
                return x.numerator * pow(x.denominator, -1, self.p) % self.p
            return x % self.p
        return Fraction(x) if self.k == "Q" else int(x)

    def __eq__(self, o):
        return (self.k, self.p) == (o.k, o.p)


ZZ, QQ = Ring("Z"), Ring("Q")


def cj(R, c):
    """coefficient -> specification value"""
    return [J(c.numerator), J(c.denominator)] if R.k == "Q" else J(c)


def ct(R, c):
    """coefficient -> driver token"""
    return "%d/%d" % (c.numerator, c.denominator) if R.k == "Q" and c.denominator != 1 else "%d" % (c.numerator if R.k == "Q" else c)


# a polynomial is a dict {exponent tuple: nonzero coefficient}
def norm(R, d):
    o = {}
    for m, c in d.items():
        c = R.c(c)
        if c:
            o[m] = c
    return o


def add(R, a, b, s=1):
    o = dict(a)
    for m, c in b.items():
        v = R.c(o.get(m, 0) + s * c)
        if v:
            o[m] = v
        else:
            o.pop(m, None)
    return o


def sub(R, a, b):
    return add(R, a, b, -1)


def mul(R, a, b):
    o = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(map(int.__add__, m, n))
            o[k] = o.get(k, 0) + c * d
    return norm(R, o)


def scale(R, a, k):
    return norm(R, {m: c * k for m, c in a.items()})


def power(R, nv, a, n):
    o = const(R, nv, 1)
    for _ in range(n):
        o = mul(R, o, a)
    return o


def prod(R, nv, fs):
    o = const(R, nv, 1)
    for f in fs:
        o = mul(R, o, f)
    return o


def const(R, nv, c):
    c = R.c(c)
    return {(0,) * nv: c} if c else {}


def var(R, nv, v, e=1):
    return {tuple(e if i == v - 1 else 0 for i in range(nv)): R.c(1)}


def deg(a, v=None):
    if not a:
        return 0
    return max(sum(m) for m in a) if v is None else max(m[v - 1] for m in a)


def coeff(a, v, d):
    return {m[:v - 1] + (0,) + m[v:]: c for m, c in a.items() if m[v - 1] == d}


def lc(a, v):
    return coeff(a, v, deg(a, v))


def deriv(R, a, v):
    return norm(R, {m[:v - 1] + (m[v - 1] - 1,) + m[v:]: c * m[v - 1] for m, c in a.items() if m[v - 1]})


def subst(R, a, v, x):
    o = {}
    for m, c in a.items():
        k = m[:v - 1] + (0,) + m[v:]
        o[k] = o.get(k, 0) + c * (pow(x, m[v - 1], R.p) if R.k == "P" else x ** m[v - 1])
    return norm(R, o)


def used(a):
    return {i + 1 for m in a for i, e in enumerate(m) if e}


def mapc(R, a):
    return norm(R, a)


def maxbits(a):
    return max([max(abs(c.numerator), getattr(c, "denominator", 1)).bit_length() if not isinstance(c, int) else abs(c).bit_length() for c in a.values()] + [0])


def key(order, m):
    g, prec = order
    return ((sum(m),) if g else ()) + tuple(m[i - 1] for i in prec)


def sorted_terms(order, a):
    return sorted(a.items(), key=lambda t: key(order, t[0]), reverse=True)


def terms_js(R, ts):
    return [[list(m), cj(R, c)] for m, c in ts]


def mono_cmd(m, univariate=False):
    if univariate:
        return "%d" % m[0]
    nz = [(i + 1, e) for i, e in enumerate(m) if e]
    return " ".join(["%d" % len(nz)] + ["%d %d" % t for t in nz])


def terms_cmd(R, ts, univariate=False):
    return " ".join(["%d" % len(ts)] + [mono_cmd(m, univariate) + " " + ct(R, c) for m, c in ts])


# ---- random material -------------------------------------------------------------------
def rnd_coef(r, R, big=0.15):
    if R.k == "P":
        p = R.p
        return r.choice([1, p - 1, r.randrange(p), r.randrange(p), min(p - 1, r.randint(1, 9))])
    k = r.random()
    if k < big:
        b = r.choice([31, 62, 63, 64, 70, 128])
        c = r.choice([2**b, 2**b - 1, r.getrandbits(b)])
    elif k < 0.55:
        c = r.randint(1, 4)
    else:
        c = r.randint(1, 100)
    c *= r.choice([1, -1])
    if R.k == "Q":
        return Fraction(c, r.choice([1, 1, 2, 3, 4, 6, 7, r.randint(1, 50), 2**63 + 29 if r.random() < big else 5]))
    return c


def rnd_mono(r, nv, d, dens=0.6, vs=None):
    """a monomial of total degree at most d"""
    e = [0] * nv
    vs = vs or list(range(1, nv + 1))
    k = r.randint(0, d)
    if len(vs) > 6:
        vs = r.sample(vs, r.choice([1, 2, 3, min(5, len(vs))]))
    while k > 0:
        v = r.choice(vs)
        s = r.randint(1, k)
        e[v - 1] += s
        k -= s
        if r.random() > dens:
            break
    return tuple(e)


def rnd_poly(r, R, nv, d, t, big=0.15, vs=None):
    o = {}
    for _ in range(t):
        o[rnd_mono(r, nv, d, vs=vs)] = rnd_coef(r, R, big)
    return norm(R, o)
