"""resultants and subresultants (C16), characteristic sets and zero decompositions (C18)."""
import random
from vlib import area
from vlib.core import J
from . import pyp
from .pyp import ZZ, QQ
from .gcd import One, coef, fac, size_ok


def c0(r, k=0.1):
    return r.choice([1, -1]) * (r.choice([2**31, 2**40 + 1, 2**64]) if r.random() < 0.03 * k else r.choice([1, 1, 1, 2, 3, r.randint(1, 30)]))


def param(r, nv, v, d):
    """a polynomial of degree at most d in the variables other than v"""
    vs = [i for i in range(1, nv + 1) if i != v]
    if not vs or d == 0 or r.random() < 0.4:
        return pyp.const(ZZ, nv, c0(r))
    p = {}
    while not p:
        p = pyp.norm(ZZ, {pyp.rnd_mono(r, nv, d, vs=vs): c0(r) for _ in range(r.choice([1, 1, 2, 3]))})
    return p


def inv(r, nv, v, n, d, dens=0.7, monic=0.4):
    """degree exactly n in v, coefficients of degree at most d in the rest"""
    p = {}
    for e in range(n + 1):
        if e == n or r.random() < dens:
            c = pyp.const(ZZ, nv, 1) if e == n and r.random() < monic else param(r, nv, v, d)
            p = pyp.add(ZZ, p, pyp.mul(ZZ, c, pyp.var(ZZ, nv, v, e)))
    return p


def chain(r, nv, v, n, d):
    """two polynomials whose remainder sequence has planted degree gaps"""
    a = {}
    while not a:
        a = inv(r, nv, v, r.choice([0, 0, 0, 1, 1, 2]), d, 0.5)
    b = inv(r, nv, v, pyp.deg(a, v) + r.choice([1, 1, 2, 3]), d, 0.5)
    while True:
        k = r.choice([0, 1, 1, 2, 2, 3])
        q = inv(r, nv, v, k, r.choice([0, 0, d]), 0.4, 0.7)
        f = pyp.add(ZZ, pyp.mul(ZZ, q, b), pyp.scale(ZZ, a, r.choice([1, 1, -1, 2])))
        if not f or pyp.deg(f, v) < pyp.deg(b, v):
            continue
        if pyp.deg(f, v) > n or len(f) > 40 or pyp.deg(f) > 14:
            return (b, a) if pyp.deg(b, v) > n else (b, a)
        a, b = b, f
        if r.random() < 0.15:
            return b, a


def toq(r, f):
    return {m: pyp.Fraction(c, r.choice([1, 1, 2, 3, 6, 7])) for m, c in f.items()} if f else f


class Elim(One):
    def e(self, op, t, v, polys, o=None):
        R = self.ring(t)
        o = self.rnd_ord(t) if o is None else o
        cs = [self.cmdp(t, p) for p in polys]
        e = {"op": op, "R": R.js(), "o": self.ojs(t, o), "nv": self.nv, "v": v}
        for k, c in zip("fg", cs):
            e[k] = c[0]
        self.ev(e, "e %s %s %s %d %s" % (op, t, o, v, " ".join(c[1] for c in cs)))

    def c(self, op, o, fs, f=None, pts=(), lin=None, cond=None):
        name = {"cs": "cs", "wu": "dec", "grd": "dec", "rc": "ref", "sqfree": "sqfree", "wrsd": "split", "rsd": "split", "reg": "reg", "sas": "sas"}[op]
        cs = [self.cmdp("Zc", p) for p in fs]
        e = {"op": name, "k": op, "R": ZZ.js(), "o": self.ojs("Zc", o), "nv": self.nv, "fs": [c[0] for c in cs],
             "pts": [[J(x) for x in p] for p in pts]}
        cmd = "c %s Zc %s %d %s" % (op, o, len(cs), " ".join(c[1] for c in cs))
        if f is not None:
            c = self.cmdp("Zc", f)
            e["f"] = c[0]
            cmd += " " + c[1]
        if lin is not None:
            e["lin"] = [[self.cmdp("Zc", p)[0] for p in ls] for ls in lin]
        if cond is not None:
            for k, ps in zip(("g1", "g2", "h"), cond):
                cs = [self.cmdp("Zc", p) for p in ps]
                e[k] = [c[0] for c in cs]
                cmd += " %d %s" % (len(cs), " ".join(c[1] for c in cs))
        self.ev(e, cmd)


def elim_pair(r, nv, v):
    big = nv <= 3
    d = r.choice([0, 1, 1, 2]) if big else r.choice([0, 1, 1])
    top = r.choice([3, 4, 5, 6, 7] if nv == 1 else [2, 3, 4, 5] if nv == 2 else [2, 3, 4] if nv == 3 else [2, 3, 3, 4])
    k = r.random()
    if k < 0.45:
        if nv > 2:
            d = min(d, 1)
        return chain(r, nv, v, top + (2 if nv == 1 else 1 if nv == 2 else 0), d)
    m, n = r.randint(0 if k > 0.9 else 1, top), r.randint(0 if k > 0.9 else 1, top)
    if k > 0.9 and r.random() < 0.5:
        m = 0
    if r.random() < 0.25:
        m = n
    if nv > 3 and m * n > 9:
        m = 3
    f, g = inv(r, nv, v, m, d), inv(r, nv, v, n, d)
    if 0.6 < k < 0.75:                       # a common factor, with or without v
        h = inv(r, nv, v, r.choice([0, 1, 1, 2]), min(d, 1), 0.6)
        f, g = pyp.mul(ZZ, f, h), pyp.mul(ZZ, g, h)
        if r.random() < 0.2:
            f = pyp.mul(ZZ, f, h)
    return f, g


def res_case(r, tier, n):
    nv = r.choice([1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5])
    h = Elim(r, nv)
    for _ in range(3):
        v = r.randint(1, nv)
        while True:
            f, g = elim_pair(r, nv, v)
            m, l = pyp.deg(f, v), pyp.deg(g, v)
            if m + l <= 16 and len(f) <= 60 and len(g) <= 60 and (nv < 4 or m + l <= 8 and len(f) * len(g) < 150) and (nv < 3 or (m + l) * max(pyp.deg(f), pyp.deg(g)) <= 50):
                break
        if r.random() < 0.02:
            f = {}
        if r.random() < 0.02:
            g = {}
        if r.random() < 0.5:
            f, g = g, f
        T = ["Zl", "Zl", "Zg", "Zc", "Ql", "Qg"]
        t = r.choice(T)
        m, l = pyp.deg(f, v), pyp.deg(g, v)
        F, G = (toq(r, f), toq(r, g)) if t[0] == "Q" else (f, g)
        k = r.random()
        if k < 0.55 or not f or not g:
            h.e("res", t, v, [F, G])
        if r.random() < 0.6 and f and g and min(m, l) >= 1:
            if m < l:
                F, G = G, F
            h.e("sub0" if r.random() < 0.25 else "sub", t, v, [F, G])
            if r.random() < 0.2 and m + l <= 7 and nv <= 3:
                h.e("bez", t, v, [F, G])
        if k > 0.7:
            p = f if r.random() < 0.6 else g
            if r.random() < 0.3 and len(p) < 8 and nv < 4:
                p = pyp.mul(ZZ, p, p)
            if pyp.deg(p, v) <= (5 if nv < 4 else 3):
                h.e("disc", t if t[0] == "Z" else "Zl", v, [p])
    return h.case("res#%d" % n, seed=r.randrange(2**32))


# ---------------------------------------------------------------------- systems ----
def grid(r, nv, n, near=()):
    s = set(tuple(p) for p in near)
    for _ in range(60):
        if len(s) >= n:
            break
        if near and r.random() < 0.4:
            p = list(r.choice(list(near)))
            p[r.randrange(nv)] += r.choice([1, -1, 2])
            s.add(tuple(p))
        else:
            s.add(tuple(r.randint(-2, 3) for _ in range(nv)))
    return sorted(s)


def roots_poly(nv, v, roots):
    p = pyp.const(ZZ, nv, 1)
    for a in roots:
        p = pyp.mul(ZZ, p, pyp.sub(ZZ, pyp.var(ZZ, nv, v), pyp.const(ZZ, nv, a)))
    return p


def small(r, nv, vs, d, t=3, k=4):
    p = {}
    while not p:
        p = pyp.norm(ZZ, {pyp.rnd_mono(r, nv, d, vs=vs): r.choice([1, 1, -1, 2, -2, r.randint(-k, k)]) for _ in range(t)})
    return p


def solve(nv, prec, T):
    """integer solutions of a triangular set, smallest variable first, by trial"""
    sols = [{}]
    for f, v in zip(T, reversed(prec)):
        out = []
        for s in sols:
            g = f
            for w, a in s.items():
                g = pyp.subst(ZZ, g, w, a)
            if pyp.used(g) - {v}:
                return []
            for a in range(-8, 9):
                if not pyp.subst(ZZ, g, v, a):
                    out.append(dict(s, **{v: a}) if False else {**s, v: a})
        sols = out[:40]
    return [tuple(s[i + 1] for i in range(nv)) for s in sols]


def zd_triangular(r, nv, prec, regular=True, dmax=3):
    """a zero-dimensional triangular set with planted rational points, smallest main variable first"""
    T, low = [], []
    for v in reversed(prec):
        k = r.random()
        d = r.choice([1, 1, 2, 2, dmax] if not low else [1, 1, 2, 2])
        X = pyp.var(ZZ, nv, v)
        if not low:
            p = roots_poly(nv, v, [r.randint(-2, 2) for _ in range(d)])
            if k < 0.2:
                p = pyp.mul(ZZ, p, pyp.add(ZZ, pyp.power(ZZ, nv, X, 2), pyp.const(ZZ, nv, r.choice([1, -2, 2]))))
        else:
            p = pyp.const(ZZ, nv, 1)
            for _ in range(d):
                p = pyp.mul(ZZ, p, pyp.sub(ZZ, X, small(r, nv, r.sample(low, 1) if r.random() < 0.7 else low, 1, 2, 2)))
            if k < 0.35:
                p = pyp.add(ZZ, p, small(r, nv, low, 1, 1, 2))
                if pyp.deg(p, v) < 1:
                    p = X
            if not regular or k > 0.75:
                i = pyp.sub(ZZ, pyp.var(ZZ, nv, r.choice(low)), pyp.const(ZZ, nv, r.choice([0, 1, -1, 2, 5]) if not regular else r.choice([5, 7, -6])))
                p = pyp.add(ZZ, pyp.mul(ZZ, pyp.mul(ZZ, i, X), p) if r.random() < 0.5 else pyp.mul(ZZ, i, p), small(r, nv, low, 1, 1, 2) if r.random() < 0.5 else {})
                if pyp.deg(p, v) < 1:
                    p = X
        T.append(p)
        low.append(v)
    return T


def system(r, nv, prec):
    """a small system, with points known to solve it where there are any"""
    k = r.random()
    vs = list(range(1, nv + 1))
    near = []
    if k < 0.3:                                          # triangular, mixed up
        T = zd_triangular(r, nv, prec, r.random() < 0.5, 2)
        near = solve(nv, prec, T)
        P = list(T)
        for i in range(len(P)):
            for j in range(i):
                if r.random() < 0.4:
                    P[i] = pyp.add(ZZ, P[i], pyp.mul(ZZ, P[j], small(r, nv, vs, 1, 1, 2)))
    elif k < 0.6:                                        # products of simple hypersurfaces
        P = []
        for _ in range(r.choice([1, 2, 2, 3])):
            p = pyp.const(ZZ, nv, 1)
            for _ in range(r.choice([1, 1, 2])):
                a = r.choice(vs)
                b = r.choice(vs)
                q = r.choice([pyp.sub(ZZ, pyp.var(ZZ, nv, a), pyp.const(ZZ, nv, r.randint(-1, 2))),
                              pyp.sub(ZZ, pyp.var(ZZ, nv, a), pyp.var(ZZ, nv, b, r.choice([1, 1, 2]))),
                              pyp.sub(ZZ, pyp.mul(ZZ, pyp.var(ZZ, nv, a), pyp.var(ZZ, nv, b)), pyp.const(ZZ, nv, r.choice([0, 1, 1, 2])))])
                if q:
                    p = pyp.mul(ZZ, p, q)
            P.append(p)
    else:                                                # sparse random, shifted to vanish at a point
        P = []
        pt = [r.randint(-2, 2) for _ in vs]
        sh = r.random() < 0.7
        for _ in range(r.choice([1, 2, 2, 3] if nv > 1 else [1, 2])):
            p = small(r, nv, vs, r.choice([1, 2, 2]) if nv > 2 else r.choice([1, 2, 2, 3]), r.choice([2, 2, 3]), 3)
            if sh:
                c = p
                for v in vs:
                    c = pyp.subst(ZZ, c, v, pt[v - 1])
                p = pyp.sub(ZZ, p, c)
            P.append(p or pyp.var(ZZ, nv, 1))
        if sh:
            near.append(tuple(pt))
    if r.random() < 0.06:
        P.insert(r.randint(0, len(P)), {})
    if r.random() < 0.03:
        P.append(pyp.const(ZZ, nv, r.choice([1, 3, -2])))
    if r.random() < 0.1:
        P.append(r.choice(P))
    if r.random() < 0.15:
        P = [pyp.scale(ZZ, p, r.choice([1, 2, -3, 6])) for p in P]
    r.shuffle(P)
    return P, near


def split_set(r, nv, prec, initials, multiple):
    """a triangular set with rational zeros only, perhaps multiple ones and vanishing initials; its linear factors"""
    T, lin, low = [], [], []
    for v in reversed(prec):
        X = pyp.var(ZZ, nv, v)
        ls = []
        for _ in range(r.choice([1, 2, 2, 3])):
            if not low or r.random() < 0.25:
                c = pyp.const(ZZ, nv, r.randint(-2, 2))
            else:
                c = pyp.add(ZZ, pyp.var(ZZ, nv, r.choice(low), r.choice([1, 1, 2]) if r.random() < 0.3 else 1), pyp.const(ZZ, nv, r.choice([0, 0, 1, -1])))
                if r.random() < 0.3:
                    c = pyp.scale(ZZ, c, r.choice([-1, 2]))
            ls.append(pyp.sub(ZZ, X, c))
        if not low:
            ls = [ls[i] for i in range(len(ls)) if ls[i] not in ls[:i]]
        elif multiple and r.random() < 0.6 and len(ls) < 3:
            ls.append(ls[0])
        p = pyp.const(ZZ, nv, 1)
        if low and r.random() < initials:
            p = pyp.sub(ZZ, pyp.var(ZZ, nv, r.choice(low)), pyp.const(ZZ, nv, r.choice([0, 1, -1, 2, 3, 5])))
        for l in ls:
            p = pyp.mul(ZZ, p, l)
        T.append(p); lin.append(ls); low.append(v)
    return T, lin


def ok_sys(P):
    return all(len(p) <= 14 and pyp.deg(p) <= 6 for p in P)


def cs_case(r, tier, n):
    nv = r.choice([1, 2, 2, 2, 3, 3])
    h = Elim(r, nv)
    for _ in range(2):
        prec = r.sample(range(1, nv + 1), nv)
        o = ",".join(map(str, prec))
        k = r.random()
        if k < 0.5:
            while True:
                P, near = system(r, nv, prec)
                if ok_sys(P):
                    break
            pts = grid(r, nv, 20, near)
            if k < 0.3:
                h.c("cs", o, P, pts=pts)
            if 0.2 < k:
                h.c("wu", o, P, pts=pts)
        elif k < 0.65:
            while True:
                T = zd_triangular(r, nv, prec, r.random() < 0.5, 2)
                P = list(T)
                for i in range(len(P)):
                    for j in range(i):
                        if r.random() < 0.4:
                            P[i] = pyp.add(ZZ, P[i], pyp.mul(ZZ, P[j], small(r, nv, [prec[-1]], 1, 1, 2)))
                if ok_sys(P):
                    break
            h.c("grd", o, P, pts=grid(r, nv, 20, solve(nv, prec, T)))
        else:
            op = r.choice(["wrsd", "wrsd", "rsd", "rsd", "rc", "sqfree", "sqfree", "split-sqfree", "split-sqfree", "reg", "sas", "sas"])
            if op in ("split-sqfree", "reg", "sas"):
                while True:
                    T, lin = split_set(r, nv, prec, 0.7 if op == "reg" else 0, op == "split-sqfree")
                    if all(len(p) <= 24 and pyp.deg(p) <= 7 for p in T) and (op != "sas" or ok_sys(T)):
                        break
                near = solve(nv, prec, T)
                pts = grid(r, nv, 20, near)
                if op == "reg":
                    h.c("reg", o, T, pts=pts, lin=lin)
                elif op == "sas":
                    def cond():
                        v = r.choice(prec)
                        if r.random() < 0.6:
                            return roots_poly(nv, v, [r.choice(near)[v - 1] if near and r.random() < 0.7 else r.randint(-2, 3)])
                        return small(r, nv, list(range(1, nv + 1)), 1, 2, 2)
                    P = list(T)
                    if nv > 1 and r.random() < 0.3:
                        P[1] = pyp.add(ZZ, P[1], pyp.mul(ZZ, P[0], small(r, nv, [prec[-1]], 1, 1, 2)))
                    if ok_sys(P):
                        h.c("sas", o, P, pts=pts, cond=[[cond() for _ in range(r.choice(w))] for w in ([0, 1, 1, 2], [0, 0, 1], [0, 0, 1, 1])])
                else:
                    h.c("sqfree", o, T, pts=pts)
                continue
            while True:
                T = zd_triangular(r, nv, prec, op != "rc")
                if ok_sys(T):
                    break
            near = solve(nv, prec, T)
            pts = grid(r, nv, 20, near)
            if op in ("rc", "sqfree"):
                h.c(op, o, T, pts=pts)
                continue
            vs = list(range(1, nv + 1))
            j = r.random()
            f = small(r, nv, vs, r.choice([1, 1, 2]), 2, 2)
            if j < 0.5 and near:                       # vanishing at one planted point
                p = r.choice(near)
                c = f
                for v in vs:
                    c = pyp.subst(ZZ, c, v, p[v - 1])
                f = pyp.sub(ZZ, f, c) or pyp.var(ZZ, nv, 1)
            elif j < 0.8:
                v = r.choice(vs)
                f = roots_poly(nv, v, [r.choice(near)[v - 1] if near else r.randint(-2, 2) for _ in range(r.choice([1, 1, 2]))])
            elif j < 0.83:
                f = pyp.const(ZZ, nv, r.choice([0, 3]))
            elif j < 0.87:
                f = r.choice(T)
            h.c(op, o, T, f, pts)
    if not [1 for e, _ in h.st if e["op"] != "setup"]:
        return cs_case(r, tier, n)
    return h.case("cs#%d" % n, seed=r.randrange(2**32))


def check(prop, tier, seed, wd, kf):
    N = {"C16": (8000, 20000), "C18": (4000, 20000)}[prop][tier == "thorough"]
    mk = {"C16": res_case, "C18": cs_case}[prop]
    cases = [mk(random.Random("%s-%d-%d" % (prop, seed, n)), tier, n) for n in range(N)]
    return area.run(prop, wd, kf, "elim", "TraceElim", cases, limit=30,
                    rule="distinct histories of resultant, subresultant and discriminant calls; every answer is compared with the defining determinant at points modulo large primes"
                    if prop == "C16" else "distinct polynomial systems and triangular sets; chains, pseudo-remainders and solution sets (integer points, and all points modulo three primes) are decided by the specification")
