"""Groebner bases, normal forms and ideal membership (C17)."""
import random
from fractions import Fraction
from vlib import area
from . import pyp
from .gcd import One
from .num import PRIMES

SMALLP = [2, 3, 5, 7, 101, 65537]


class TooBig(Exception):
    pass


def lmc(ord_, f):
    m = max(f, key=lambda m: pyp.key(ord_, m))
    return m, f[m]


def inv(R, c):
    return pow(c, -1, R.p) if R.k == "P" else Fraction(1) / c


def shift(R, f, m, c):
    return pyp.norm(R, {tuple(map(int.__add__, m, k)): c * x for k, x in f.items()})


class GB:
    """Buchberger with cofactors; raises TooBig where the example is not small"""

    def __init__(self, R, nv, ord_, F, cap=60, bits=160):
        self.R, self.nv, self.ord, self.F = R, nv, ord_, F
        self.G, self.C, self.L = [], [], []
        self.bits = bits
        self.steps = 0
        pairs = []
        for j, f in enumerate(F):
            if f:
                pairs += self.add(f, {j: pyp.const(R, nv, 1)})
        while pairs:
            cap -= 1
            if cap < 0:
                raise TooBig
            pairs.sort(key=lambda p: -sum(p[2]))
            i, j, L = pairs.pop()
            if not any(self.L[i][k] and self.L[j][k] for k in range(nv)):
                continue
            a = shift(R, self.G[i], tuple(L[k] - self.L[i][k] for k in range(nv)), 1)
            b = shift(R, self.G[j], tuple(L[k] - self.L[j][k] for k in range(nv)), 1)
            c = self.comb(self.C[i], pyp.norm(R, {tuple(L[k] - self.L[i][k] for k in range(nv)): 1}),
                          self.C[j], pyp.norm(R, {tuple(L[k] - self.L[j][k] for k in range(nv)): -1}))
            f, c = self.nf(pyp.sub(R, a, b), c, range(len(self.G)))
            if f:
                pairs += self.add(f, c)
        # reduce
        keep = []
        for i in range(len(self.G)):
            if not any(j != i and all(x <= y for x, y in zip(self.L[j], self.L[i])) and (self.L[j] != self.L[i] or j < i) for j in range(len(self.G))):
                keep.append(i)
        self.B, self.A = [], []
        for i in keep:
            f, c = self.nf(self.G[i], self.C[i], [j for j in keep if j != i])
            self.B.append(f)
            self.A.append([c.get(j, {}) for j in range(len(F))])

    def comb(self, c, x, d, y):
        R = self.R
        o = {}
        for j in set(c) | set(d):
            v = pyp.add(R, pyp.mul(R, c.get(j, {}), x), pyp.mul(R, d.get(j, {}), y))
            if v:
                if len(v) > 150:
                    raise TooBig
                o[j] = v
        return o

    def add(self, f, c):
        R = self.R
        m, k = lmc(self.ord, f)
        k = inv(R, k)
        f = pyp.scale(R, f, k)
        if pyp.maxbits(f) > self.bits or len(f) > 40 or len(self.G) > 14:
            raise TooBig
        c = {j: pyp.scale(R, x, k) for j, x in c.items()}
        n = len(self.G)
        self.G.append(f)
        self.C.append(c)
        self.L.append(m)
        return [(i, n, tuple(map(max, self.L[i], m))) for i in range(n)]

    def nf(self, f, c, idx):
        R = self.R
        h, r = dict(f), {}
        while h:
            self.steps += 1
            if self.steps > 1500 or len(h) > 150:
                raise TooBig
            m, k = lmc(self.ord, h)
            for i in idx:
                if all(x <= y for x, y in zip(self.L[i], m)):
                    q = tuple(y - x for x, y in zip(self.L[i], m))
                    h = pyp.sub(R, h, shift(R, self.G[i], q, k))
                    if c is not None:
                        c = self.comb(c, pyp.const(R, self.nv, 1), self.C[i], pyp.norm(R, {q: -k}))
                    break
            else:
                r[m] = k
                del h[m]
        return r, c


def binom(r, R, nv, d):
    while True:
        a, b = pyp.rnd_mono(r, nv, d), pyp.rnd_mono(r, nv, d)
        if a != b:
            return pyp.norm(R, {a: 1, b: r.choice([-1, -1, -1, 1, 2])}) or pyp.var(R, nv, 1)


def rp(r, R, nv, d, t, k=3):
    p = {}
    while not p:
        p = pyp.norm(R, {pyp.rnd_mono(r, nv, d): r.choice([1, 1, -1, r.randint(-k, k), Fraction(r.randint(1, 3), r.choice([1, 2, 3])) if R.k == "Q" else r.randint(1, 5)]) for _ in range(t)})
    return p


def generators(r, R, nv):
    k = r.random()
    X = lambda v, e=1: pyp.var(R, nv, v, e)
    c = lambda a: pyp.const(R, nv, a)
    vs = list(range(1, nv + 1))
    if k < 0.02:
        return []
    if k < 0.05:
        return [{}] * r.randint(1, 2) + ([rp(r, R, nv, 2, 2)] if r.random() < 0.5 else [])
    if k < 0.30:                                            # binomials and monomials
        F = [binom(r, R, nv, r.choice([2, 3, 3, 4])) for _ in range(r.choice([2, 3, 3, 4, 5]))]
        if r.random() < 0.4:
            F.append(pyp.norm(R, {pyp.rnd_mono(r, nv, 4): 1}) or X(1))
        return F
    if k < 0.38:                                            # monomials only
        return [pyp.norm(R, {pyp.rnd_mono(r, nv, 5): r.choice([1, 2, 3])}) or X(1) for _ in range(r.randint(1, 6))]
    if k < 0.46:                                            # linear
        return [rp(r, R, nv, 1, r.randint(1, nv + 1), 9) for _ in range(r.randint(1, nv + 1))]
    if k < 0.54:                                            # inconsistent
        f = rp(r, R, nv, 2, 2)
        return [f, pyp.add(R, f, c(1)) or c(1)] + [rp(r, R, nv, 1, 2) for _ in range(r.randint(0, 1))]
    if k < 0.64:                                            # common factor
        h = rp(r, R, nv, 1, 2)
        return [pyp.mul(R, h, rp(r, R, nv, r.choice([1, 2]), 2)) or h for _ in range(r.choice([2, 2, 3]))]
    if k < 0.74:                                            # points of a grid
        F = []
        for v in vs:
            p = c(1)
            for _ in range(r.choice([1, 2, 2])):
                p = pyp.mul(R, p, pyp.sub(R, X(v), c(r.randint(-2, 2))))
            F.append(p)
        for _ in range(r.randint(0, 2)):
            F.append(rp(r, R, nv, 1, 2))
        return F
    if k < 0.80 and nv >= 3:                                # symmetric (cyclic) systems
        F = [c(0) for _ in range(nv)]
        n = nv
        for d in range(1, n):
            s = {}
            for i in range(n):
                m = [0] * n
                for j in range(d):
                    m[(i + j) % n] += 1
                s = pyp.add(R, s, {tuple(m): R.c(1)})
            F[d - 1] = s
        F[n - 1] = pyp.sub(R, pyp.norm(R, {(1,) * n: 1}), c(1))
        return F
    return [rp(r, R, nv, r.choice([1, 2, 2, 3]), r.choice([2, 2, 3])) for _ in range(r.choice([1, 2, 2, 3]))]


def combo(r, R, nv, fs):
    s = {}
    for f in fs:
        if r.random() < 0.6:
            s = pyp.add(R, s, pyp.mul(R, f, rp(r, R, nv, 1, r.choice([1, 2]))))
    return s


class Grb(One):
    def send(self, op, t, o, polys, e, f=None, tail=""):
        R = self.ring(t)
        e.update({"op": op, "R": R.js(), "o": self.ojs(t, o), "nv": self.nv})
        cs = [self.cmdp(t, p) for p in polys]
        if op != "sp":
            e["gens"] = [c[0] for c in cs]
        else:
            e["f"], e["g"] = cs[0][0], cs[1][0]
        cmd = "b %s %s %s %s %s" % (dict(nfb="nf").get(op, op), t, o, "" if op == "sp" else len(cs), " ".join(c[1] for c in cs))
        if f is not None:
            c = self.cmdp(t, f)
            e["f"] = c[0]
            cmd += " " + c[1]
        self.ev(e, cmd + " " + tail)

    def ideal(self, t, o, F):
        R = self.ring(t)
        K = pyp.QQ if R.k == "Z" else R
        up = lambda f: {m: Fraction(c) for m, c in f.items()} if R.k == "Z" else f
        g = GB(K, self.nv, self.order(t, o), [up(f) for f in F])
        js = lambda S, p: pyp.terms_js(S, list(p.items()))
        self.ev({"op": "ideal", "R": R.js(), "o": self.ojs(t, o), "nv": self.nv, "F": [js(R, f) for f in F],
                 "B": [js(K, b) for b in g.B], "A": [[js(K, x) for x in a] for a in g.A]}, "none")
        return g


def clear(f):
    """primitive integer multiple"""
    from math import gcd, lcm
    l = 1
    for c in f.values():
        l = lcm(l, c.denominator)
    d = {m: int(c * l) for m, c in f.items()}
    return d


def case(r, tier, n):
    while True:
        try:
            return case1(r, tier, n)
        except TooBig:
            pass


def case1(r, tier, n):
    p = r.choice(SMALLP + PRIMES[:4]) if r.random() < 0.15 else None
    nv = r.choice([1, 2, 2, 2, 3, 3, 3, 4, 5])
    h = Grb(r, nv, p=p)
    t = r.choice(["Pl", "Pg"]) if p else r.choice(["Ql", "Qg", "Qg", "Qc", "Qh", "Zl", "Zg", "Zg", "Zc", "Zh"])
    R = h.ring(t)
    o = h.rnd_ord(t)
    F = generators(r, R, nv)
    for _ in range(1 if r.random() < 0.7 else 2):            # a second round turns to another order
        g = h.ideal(t, o, F)
        sc = lambda f: pyp.scale(R, f, r.choice([1, -1, 2, 3, -5, 12] if R.k == "Z" else [1, -1, 2, Fraction(1, 3), Fraction(-7, 2)] if R.k == "Q" else [1, 1, p - 1])) or f
        Bt = [clear(b) if R.k == "Z" else b for b in g.B]

        def gens():
            fs = list(F)
            if r.random() < 0.7:
                fs = [sc(f) for f in fs]
                fs += [sc(r.choice(fs)) for _ in range(r.choice([0, 0, 1, 2]))] if fs else []
                if fs and r.random() < 0.3:
                    fs.append(combo(r, R, nv, F))
                if r.random() < 0.1:
                    fs.append({})
                r.shuffle(fs)
            return fs

        def target():
            k = r.random()
            if k < 0.45 and F:
                f = combo(r, R, nv, F)
                if r.random() < 0.25:
                    f = pyp.add(R, f, rp(r, R, nv, r.choice([0, 1]), 1))
            elif k < 0.55 and Bt:
                f = r.choice(Bt)
            else:
                f = rp(r, R, nv, r.choice([1, 2, 3, 4]), r.choice([1, 2, 4]), 20)
            if r.random() < 0.04:
                f = {}
            if len(f) > 60:
                raise TooBig
            return f

        if not p:
            for _ in range(r.choice([1, 1, 2])):
                h.send("gb", t, o, gens(), {})
            if r.random() < 0.3:
                b = [sc(x) for x in Bt] + (gens() if r.random() < 0.5 else [])
                r.shuffle(b)
                if all(any(True for y in b if y and x and assoc(R, g.ord, x, y)) for x in F if x):
                    h.send("gb", t, o, b, {})
            fs = [target() for _ in range(r.choice([1, 2, 3]))]
            cs = [h.cmdp(t, f) for f in fs]
            h.send("obj", t, o, gens(), {"fs": [c[0] for c in cs]}, tail="%d %d %s" % (len(cs), r.randint(0, 1), " ".join(c[1] for c in cs)))
        for _ in range(r.choice([1, 2])):
            D = [x for x in gens() if x]
            f = target()
            h.send("nf", t, o, D, {}, f)
            D = [sc(x) for x in Bt]
            r.shuffle(D)
            h.send("nfb", t, o, D, {}, target())
        pool = [x for x in F + Bt if x]
        if pool:
            h.send("sp", t, o, [sc(r.choice(pool)), sc(r.choice(pool))], {})
        t = r.choice([x for x in ["Ql", "Qg", "Qc", "Qh", "Zl", "Zg", "Zc", "Zh", "Pl", "Pg"] if x[0] == t[0]])
        o = h.rnd_ord(t)
    return h.case("gb#%d" % n, seed=r.randrange(2**32))


def assoc(R, ord_, x, y):
    a, b = lmc(ord_, x), lmc(ord_, y)
    return a[0] == b[0] and pyp.norm(R, {m: c * b[1] for m, c in x.items()}) == pyp.norm(R, {m: c * a[1] for m, c in y.items()})


def check(prop, tier, seed, wd, kf):
    N = {"C17": (3000, 15000)}[prop][tier == "thorough"]
    cases = [case(random.Random("%s-%d-%d" % (prop, seed, n)), tier, n) for n in range(N)]
    return area.run(prop, wd, kf, "groebner", "TraceGroebner", cases, limit=30,
                    rule="distinct ideals given by generators in various orders, scalings and repetitions; each carries its reduced basis with cofactors, certified by the specification, which makes every answer unique")
