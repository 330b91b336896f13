"""Graphs, chordality, elimination, graphs of polynomial sets (C22)."""
import itertools, random
from vlib import area, core
from vlib.core import Case
from . import pyp, vars as gvars
from .num import PRIMES


def random_graph(r, n):
    V = list(range(1, n + 1))
    pairs = [(a, b) for a in V for b in V if a < b]
    k = r.random()
    if k < 0.40:
        q = r.choice([0.05, 0.15, 0.3, 0.5, 0.8])
        E = [e for e in pairs if r.random() < q]
    elif k < 0.50:                                     # cycles
        E, i = [], 0
        while i < n:
            m = min(n - i, r.choice([3, 4, 5, 6, 9, n]))
            c = V[i:i + m]
            E += [(c[j], c[(j + 1) % m]) for j in range(m)] if m > 2 else [(c[0], c[1])] if m == 2 else []
            i += m
        E += [e for e in pairs if r.random() < 0.03]
    elif k < 0.62:                                     # trees and forests
        E = [(r.randint(1, v - 1), v) for v in V[1:] if r.random() < 0.92]
    elif k < 0.80:                                     # chordal: grow simplicial vertices
        nb, E = {1: set()}, []
        for v in V[1:]:
            c = {r.randint(1, v - 1)} if r.random() < 0.95 else set()
            for u in list(c):
                for x in r.sample(sorted(nb[u]), len(nb[u])):
                    if r.random() < 0.6 and all(x in nb[y] for y in c):
                        c.add(x)
            nb[v] = set(c)
            for u in c:
                nb[u].add(v)
                E.append((u, v))
        if r.random() < 0.3 and E:
            E.remove(r.choice(E))
    elif k < 0.88:                                     # grids
        w = r.choice([2, 3, 4])
        E = [(v, v + 1) for v in V if v % w and v < n] + [(v, v + w) for v in V if v + w <= n]
    elif k < 0.94:                                     # bipartite, complete, stars
        a = r.randint(1, n)
        E = [e for e in pairs if (e[0] <= a) != (e[1] <= a)]
        if r.random() < 0.3:
            E = pairs
    else:
        E = []
    p = V[:]
    r.shuffle(p)
    E = [(p[a - 1], p[b - 1]) for a, b in E]
    r.shuffle(E)
    return V, [e if r.random() < 0.5 else e[::-1] for e in set(tuple(sorted(e)) for e in E if e[0] != e[1])]


class Hist:
    def __init__(self, r, t, n):
        self.r, self.t, self.st = r, t, []
        names = ["v%d" % (i + 1) for i in r.sample(range(60), max(n, 1))]
        self.n = n
        self.ev({"op": "setup"}, "vars " + " ".join(names))

    def ev(self, e, cmd):
        self.st.append((e, cmd))

    def g(self, op, e, *args):
        e["op"] = op
        self.ev(e, "g %s %s %s" % (self.t, op, " ".join(str(a) for a in args)))

    def make(self, d, V, E):
        V = self.r.sample(V, len(V))
        self.g("make", {"d": d, "ns": V, "es": [list(e) for e in E]}, d, len(V), *V, len(E), *[x for e in E for x in e])

    def queries(self, x, V, full=True):
        r = self.r
        do = lambda q: full or r.random() < q
        perm = lambda: r.sample(V, len(V))
        k = r.choice([1, 2, 3])
        if do(0.7):
            self.g("chordal", {"x": x, "d": 1, "k": k}, x, 1, k)
            if r.random() < 0.4:
                self.g("peo", {"x": 1}, 1)
        if do(0.6):
            self.g("peo", {"x": x}, x)
        if do(0.4):
            self.g("branch", {"x": x}, x)
        if do(0.3):
            self.g("bgraph", {"x": x, "d": 2}, x, 2)
        if do(0.5):
            o = perm()
            o = o if r.random() < 0.6 else o[:r.randint(0, len(o))]
            self.g("elim", {"x": x, "d": 2, "o": o}, x, 2, len(o), *o)
        if do(0.5):
            o = perm()
            self.g("height", {"x": x, "o": o}, x, len(o), *o)
        if do(0.3) and V:
            a = r.choice(V)
            self.g("ecc", {"x": x, "a": a}, x, a)
        if do(0.2):
            self.g("show", {"x": x}, x)

    def score(self, x, y):
        self.g("score", {"x": x, "y": y}, x, y)

    def done(self, tag):
        return Case(tag, self.st, self.r.randrange(2**32))


def structural(r, n):
    """the graph class itself, directed edges and loops included"""
    N = r.randint(1, 8)
    h = Hist(r, r.choice("isv"), N)
    V = [set(), set(), set(), set()]
    for _ in range(25):
        d = r.randrange(3)
        k = r.random()
        if k < 0.2:
            a = r.randint(1, N)
            h.g("node", {"d": d, "a": a}, d, a)
            V[d].add(a)
        elif k < 0.6:
            a, b, q = r.randint(1, N), r.randint(1, N), int(r.random() < 0.35)
            how = r.choice([0, 1, 2]) if {a, b} <= V[d] else 0
            h.g("edge", {"d": d, "a": a, "b": b, "dir": bool(q)}, d, how, a, b, q)
            V[d] |= {a, b}
        elif k < 0.7:
            a, b = r.randint(1, N), r.randint(1, N)
            h.g("isedge", {"x": d, "a": a, "b": b}, d, a, b)
        elif k < 0.8 and V[d]:
            a = r.choice(sorted(V[d]))
            h.g("nbr", {"x": d, "a": a}, d, a)
        elif k < 0.84:
            e = r.randrange(3)
            h.g("copy", {"d": e, "x": d}, e, d)
            V[e] = set(V[d])
        elif k < 0.86:
            h.g("clear", {"d": d}, d)
            V[d] = set()
        else:
            h.g("show", {"x": d}, d)
    for d in range(3):
        h.g("show", {"x": d}, d)
    return h.done("class#%d" % n)


def graphs(r, n, top):
    N = r.randint(0, 3) if r.random() < 0.1 else r.randint(3, top)
    h = Hist(r, r.choice("isv"), N)
    V, E = random_graph(r, N)
    h.make(0, V, E)
    for _ in range(2):
        h.queries(0, V)
    # similarity with another graph on a different set of nodes
    for _ in range(2):
        A, B = sorted(r.sample(V, r.randint(0, N))), sorted(r.sample(V, r.randint(0, N)))
        EA = [e for e in E if e[0] in A and e[1] in A and r.random() < 0.9]
        EB = [e for e in E if e[0] in B and e[1] in B and r.random() < 0.7]
        if EA or EB:
            h.make(1, A, EA)
            h.make(3, B, EB)
            h.score(1, 3)
            h.score(3, 1)
    return h.done("graph#%d" % n)


def small(r, n, N, sets, tag):
    """consecutive labelled graphs on N nodes"""
    h = Hist(r, r.choice("isv"), N)
    V = list(range(1, N + 1))
    P = list(itertools.combinations(V, 2))
    for s in sets:
        h.make(0, V, [P[i] for i in range(len(P)) if s >> i & 1])
        h.queries(0, V, full=False)
    return h.done("%s#%d" % (tag, n))


class PolyHist(Hist):
    def polys(self, t, F):
        R = {"Z": pyp.ZZ, "Q": pyp.QQ}.get(t[0]) or pyp.Ring("P", self.p)
        return "%d %s" % (len(F), " ".join(pyp.terms_cmd(R, self.r.sample(list(f.items()), len(f)), False) for f in F))


def polyset(r, n):
    N = r.randint(1, 9)
    h = PolyHist(r, "v", N)
    t = r.choice(["Zl", "Zg", "Qg", "Pg"])
    R = {"Z": pyp.ZZ, "Q": pyp.QQ}.get(t[0])
    if t == "Pg":
        h.p = r.choice(PRIMES[:8])
        R = pyp.Ring("P", h.p)
        h.ev({"op": "setup"}, "prime %d" % h.p)
    for _ in range(r.choice([1, 2])):
        V, E = random_graph(r, N)
        F = []
        for _ in range(r.randint(0, 7)):
            f = {}
            vs = r.choice(E) if E and r.random() < 0.6 else r.sample(V, r.randint(0, min(3, N)))
            for _ in range(r.choice([1, 1, 2, 3])):
                m = [0] * N
                for v in vs:
                    m[v - 1] = r.choice([0, 1, 1, 2, 3, 7])
                f = pyp.add(R, f, pyp.norm(R, {tuple(m): r.choice([1, -1, 2, 3, 5])}))
            F.append(f)
        vs = [[v for v in V if any(m[v - 1] for m in f)] for f in F]
        h.ev({"op": "assoc", "d": 0, "vs": vs}, "p %s assoc 0 %s" % (t, h.polys(t, F)))
        W = sorted(set(x for s in vs for x in s))
        h.ev({"op": "ppeo", "vs": vs}, "p %s ppeo %s" % (t, h.polys(t, F)))
        h.queries(0, W, full=r.random() < 0.5)
        F2 = r.sample(F, r.randint(0, len(F)))
        vs2 = [[v for v in V if any(m[v - 1] for m in f)] for f in F2]
        h.ev({"op": "assoc", "d": 3, "vs": vs2}, "p %s assoc 3 %s" % (t, h.polys(t, F2)))
        if any(len(s) > 1 for s in vs):
            h.score(0, 3)
            h.score(3, 0)
    return h.done("polys#%d" % n)


def check(prop, tier, seed, wd, kf):
    q = tier == "quick"
    r = random.Random("%s-%d" % (prop, seed))
    models = []
    for c in ["MCS.cfg", "MCSFill5.cfg"]:
        models.append(lambda w, p, c=c: (lambda s: (s[1], s[0], []))(core.parse_tlc_stats(gvars.tlc_model(w, c[:-4], "MCSModel", c, workers=8))))
    cases = []
    for N in (1, 2, 3, 4):                             # every labelled graph, several tie-breaks
        m = 1 << (N * (N - 1) // 2)
        for k in range(4 if q else 20):
            for i in range(0, m, 16):
                cases.append(small(r, len(cases), N, range(i, min(m, i + 16)), "all%d" % N))
    for k in range(1 if q else 8):
        for i in range(0, 1024, 16):
            cases.append(small(r, len(cases), 5, range(i, i + 16), "all5"))
    for k in range(60 if q else 2048):                 # six nodes: a sample (all of them when thorough)
        cases.append(small(r, k, 6, [r.randrange(32768) for _ in range(16)] if q else range(16 * k, 16 * k + 16), "some6" if q else "all6"))
    cases += [graphs(r, n, r.choice([8, 12, 20])) for n in range(250 if q else 2500)]
    cases += [structural(r, n) for n in range(100 if q else 800)]
    cases += [polyset(r, n) for n in range(250 if q else 2500)]
    return area.run(prop, wd, kf, "graph", "TraceGraph", cases, models=models, limit=20, flags=("-O1", "-DDEBUG", "-fsanitize=address"),
                    extra={"model": "MCSModel: MCS and MCS-M with every tie-break on every graph of five nodes, against the textbook definitions"},
                    rule="every labelled graph up to five nodes under several tie-breaks, larger random, chordal, grid, cycle and forest graphs, polynomial sets")
