"""The variable registry (C04) and monomials (C05)."""
import json, os, random, re
from vlib import area, core
from vlib.core import Case, Infra
from .poly import Hist


# ------------------------------------------------------------- histories from the model --
def tlc_model(wd, name, module, cfg, args=(), timeout=600, workers=4, mem="4g"):
    md = os.path.join(wd, name)
    os.makedirs(md, exist_ok=True)
    rc, out = core.tlc(module, cfg, args=args, timeout=timeout, workers=workers, mem=mem, metadir=md)
    if "-simulate" in args:
        ok = rc == 0
    else:
        ok = rc == 0 and "No error has been found" in out
    if not ok:
        raise Infra("model %s (%s) does not check:\n%s" % (module, cfg, out[-3000:]))
    return out


def var_event(c, i):
    op = c[0]
    if op in ("get", "newn", "ctor"):
        return {"op": op, "h": c[1]}, "%s %d %s" % (op, c[1], c[2])
    if op == "new":
        return {"op": op, "h": c[1]}, "new %d" % c[1]
    if op == "deln":
        return {"op": op}, "deln " + c[1]
    if op == "dels":
        return {"op": op, "h": c[1]}, "dels %d" % c[1]
    raise Infra("model command %r" % (c,))


def var_cases(hists, tag, r):
    out = []
    for n, h in enumerate(hists):
        st = []
        if n % 2:
            st.append(({"op": "grow"}, "grow"))
        slots = []
        for i, c in enumerate(h):
            c = list(c)
            if c[0] == "get" and r.random() < 0.3:
                c[0] = "ctor"
            st.append(var_event(c, i))
        out.append(Case("%s#%d" % (tag, n), st))
    return out


def parse_hists(out):
    hs = []
    for m in re.finditer(r'^"HIST (.*)"$', out, re.M):
        hs.append(json.loads(m.group(1).replace('\\"', '"')))
    return hs


def var_random(r, tag, n):
    """longer histories with a shadow registry, comparing and copying handles too"""
    st, slots, live = [], {}, {}        # slots: h -> name token known only symbolically -> identity object
    k = 0
    if r.random() < 0.5:
        st.append(({"op": "grow"}, "grow"))
    H = r.choice([3, 5, 9])
    for _ in range(n):
        h = r.randint(1, H)
        good = [s for s in slots if slots[s][1][0]]
        c = r.random()
        if c < 0.3 or not good:
            t = r.choice(["a", "b", "x_1", "Z", "var", "#var_1", "#var_2_", "@P1", "@P2", "@P1_", "@P3"] + ["@S%d" % s for s in slots] + ["@N%d" % s for s in slots]
                         + ["@N%d_" % s for s in slots] + ["@S%d_" % s for s in slots])
            op = r.choice(["get", "ctor"])
            st.append(({"op": op, "h": h}, "%s %d %s" % (op, h, t)))
            slots[h] = [t, [False]]             # which variable it is stays unknown here
        elif c < 0.5:
            st.append(({"op": "new", "h": h}, "new %d" % h))
            slots[h] = ["", [True]]
        elif c < 0.58:
            k += 1
            t = "%s%d_%s" % (r.choice("uvw"), k, tag.replace("#", "_"))
            st.append(({"op": "newn", "h": h}, "newn %d %s" % (h, t)))
            slots[h] = [t, [True]]
        elif c < 0.66:
            t = r.choice(["a", "b", "Z", "nosuch"])
            st.append(({"op": "deln"}, "deln " + t))
        elif c < 0.72:
            s = r.choice(good)
            st.append(({"op": "deln"}, "deln @N%d" % s))
            slots[s][1][0] = False
        elif c < 0.8:
            s = r.choice(good)
            st.append(({"op": "dels", "h": s}, "dels %d" % s))
            slots[s][1][0] = False
        elif c < 0.83:
            st.append(({"op": "delx"}, "delx %d" % r.randint(0, 3)))
        elif c < 0.88:
            s = r.choice(good)
            st.append(({"op": "gets", "h": h, "g": s}, "gets %d %d" % (h, s)))
            slots[h] = slots[s]
        elif c < 0.92:
            s = r.choice(list(slots))
            st.append(({"op": "copy", "h": h, "g": s}, "copy %d %d" % (h, s)))
            slots[h] = slots[s]
        elif c < 0.95:
            a, b = r.choice(list(slots)), r.choice(list(slots))
            if a != b:
                st.append(({"op": "swap", "h": a, "g": b}, "swap %d %d" % (a, b)))
                slots[a], slots[b] = slots[b], slots[a]
        else:
            a, b = r.choice(list(slots)), r.choice(list(slots))
            st.append(({"op": "cmp", "h": a, "g": b}, "cmp %d %d" % (a, b)))
    return Case(tag, st)


# -------------------------------------------------------------------------- monomials --
ORD = {"g": "grlex", "l": "lex", "u": "univariate priority", "c": "lex with precedence", "h": "grlex with precedence"}


class MHist(Hist):
    def __init__(self, r, nv, t):
        super().__init__(r, nv, "Z")
        self.t = t
        self.o = self.rnd_ord("Z" + t)
        g, prec = self.order("Z" + t, self.o)
        self.prec = prec
        self.ev({"op": "order", "nv": nv, "o": {"g": g, "prec": prec}}, "order %s %s" % (t, self.o))
        self.m = {}

    def exps(self, big):
        r = self.r
        return tuple(r.choice([0, 0, 1, 1, 2, 3, r.randint(0, big)]) for _ in range(self.nv))

    def new(self, d, e=None):
        r = self.r
        if e is None:
            e = self.exps(r.choice([3, 10, 10**6, 10**8]))
            if self.m and r.random() < 0.4:        # near another one
                e = list(r.choice(list(self.m.values())))
                i = r.randrange(self.nv)
                e[i] = max(0, e[i] + r.choice([-1, 1]))
                if r.random() < 0.5:
                    j = r.randrange(self.nv)
                    e[j] = max(0, e[j] + r.choice([-1, 1]))
                e = tuple(e)
        ps = []
        for i, x in enumerate(e):
            while x > 0 and r.random() < 0.3:
                k = r.randint(1, x)
                ps.append([i + 1, k])
                x -= k
            if x or r.random() < 0.3:
                ps.append([i + 1, x])
        r.shuffle(ps)
        k = r.choice(["ctor", "mctor", "assign", "massign", "raw"])
        self.m[d] = tuple(e)
        self.ev({"op": "mnew", "d": d, "ps": ps}, "m new %s %s %d %s" % (d, k, len(ps), " ".join("%d %d" % (a, b) for a, b in ps)))

    def step(self):
        r, m = self.r, self.m
        names = "abcdef"
        d = r.choice(names)
        if len(m) < 3:
            return self.new(d)
        x, y = r.choice(list(m)), r.choice(list(m))
        k = r.random()
        if k < 0.12:
            self.new(d)
        elif k < 0.42:
            op = r.choice(["mul", "mul", "mul3", "quo", "gcd", "lcm", "divx", "divx"])
            a, b = m[x], m[y]
            div = all(p >= q for p, q in zip(a, b))
            if op in ("quo", "divx") and not div and r.random() < 0.8:      # make it divisible
                self.ev({"op": "mbin", "k": "lcm", "d": x, "x": x, "y": y}, "m bin lcm %s %s %s" % (x, x, y))
                m[x] = a = tuple(max(p, q) for p, q in zip(a, b))
                b = m[y]
                div = True
            if op == "quo" and not div:
                return
            if op in ("mul", "mul3") and sum(a) + sum(b) > 10**9:
                return
            self.ev({"op": "mbin", "k": op, "d": d, "x": x, "y": y}, "m bin %s %s %s %s" % (op, d, x, y))
            if op == "divx" and not div:
                m.pop(d, None)
                return
            f = {"mul": lambda p, q: p + q, "mul3": lambda p, q: p + q, "quo": lambda p, q: p - q, "divx": lambda p, q: p - q, "gcd": min, "lcm": max}[op]
            m[d] = tuple(f(p, q) for p, q in zip(a, b))
        elif k < 0.5:
            n = r.choice([0, 1, 2, 3, 7])
            if sum(m[x]) * n > 10**9:
                return
            self.ev({"op": "mpow", "d": d, "x": x, "n": n}, "m pow %s %s %d" % (d, x, n))
            m[d] = tuple(n * e for e in m[x])
        elif k < 0.54:
            v, e = r.randint(1, self.nv), r.choice([0, 1, 2, 5])
            if r.random() < 0.5:
                e = 1
                self.ev({"op": "mnew", "d": d, "ps": [[v, 1]]}, "m var %s %d" % (d, v))
            else:
                self.ev({"op": "mnew", "d": d, "ps": [[v, e]]}, "m powv %s %d %d" % (d, v, e))
            m[d] = tuple(e if i == v - 1 else 0 for i in range(self.nv))
        elif k < 0.57:
            c = r.random()
            m[d] = (0,) * self.nv
            if c < 0.5 or d not in m:
                self.ev({"op": "mnew", "d": d, "ps": []}, "m one %s" % d)
            else:
                self.ev({"op": "mnew", "d": d, "ps": []}, "m one %s" % d)
        elif k < 0.6:
            self.ev({"op": "mnew", "d": x, "ps": []}, "m clear %s" % x)
            m[x] = (0,) * self.nv
        elif k < 0.64:
            occ = [i for i, v in enumerate(self.prec) if m[x][v - 1]]
            last = max(occ) if occ else -1
            if r.random() < 0.5 and occ:
                self.ev({"op": "mpop", "d": x}, "m pop %s" % x)
                e = list(m[x])
                e[self.prec[last] - 1] = 0
                m[x] = tuple(e)
            elif last + 1 < self.nv:
                v = self.prec[r.randint(last + 1, self.nv - 1)]
                q = r.randint(1, 5)
                self.ev({"op": "mpush", "d": x, "v": v, "e": q}, "m push %s %d %d" % (x, v, q))
                e = list(m[x])
                e[v - 1] = q
                m[x] = tuple(e)
        elif k < 0.68:
            self.ev({"op": "copy", "d": d, "x": x}, "m copy %s %s %s" % (d, r.choice("ca"), x))
            m[d] = m[x]
        elif k < 0.72:
            kk = r.choice("ca")
            if d == x:
                kk = "a"
            self.ev({"op": "move", "d": d, "x": x}, "m move %s %s %s" % (d, kk, x))
            if d != x:
                m[d] = m.pop(x)
        elif k < 0.75:
            self.ev({"op": "swap", "x": x, "y": y}, "m swap %s %s" % (x, y))
            m[x], m[y] = m[y], m[x]
        elif k < 0.92:
            self.ev({"op": "mcmp", "x": x, "y": y}, "m cmp %s %s" % (x, y))
        elif k < 0.99:
            self.ev({"op": "mquery", "x": x}, "m q %s" % x)
        else:
            self.ev({"op": "vcmp"}, "m vcmp")


def mono_history(r, tag, n):
    h = MHist(r, r.choice([1, 2, 3, 4, 6, 9]), r.choice("glucchh"))
    h.ev({"op": "vcmp"}, "m vcmp")
    for _ in range(n):
        h.step()
    return Case(tag, h.st)


def mono_exhaustive(r, t, nv, e):
    """every pair of monomials with exponents up to e: all comparisons and operations"""
    import itertools
    out = []
    ms = list(itertools.product(range(e + 1), repeat=nv))
    for a in ms:
        h = MHist(r, nv, t)
        h.new("a", a)
        for b in ms:
            h.new("b", b)
            h.ev({"op": "mcmp", "x": "a", "y": "b"}, "m cmp a b")
            for k in ("mul", "gcd", "lcm", "divx"):
                h.ev({"op": "mbin", "k": k, "d": "c", "x": "a", "y": "b"}, "m bin %s c a b" % k)
        out.append(Case("mono-all-%s%d#%s" % (t, nv, a), h.st))
    return out


def check(prop, tier, seed, wd, kf):
    r = random.Random("%s-%d" % (prop, seed))
    q = tier == "quick"
    if prop == "C04":
        out = tlc_model(wd, "gen", "VarImpl", "VarImplGen.cfg" if q else "VarImplGenDeep.cfg", workers=8)
        ms = core.parse_tlc_stats(out)
        cases = var_cases(parse_hists(out), "model", r)
        if len(cases) < 1000:
            raise Infra("the model printed only %d histories" % len(cases))
        cases += [var_random(r, "random#%d" % i, r.choice([20, 60, 150])) for i in range(300 if q else 3000)]
        return area.run(prop, wd, kf, "vars", "TraceVars", cases, limit=20, models=[lambda w, p: (ms[1], ms[0], [])],
                        extra={"model": "VarImpl refines CLPolyVars, checked by TLC; every model history of the bound replayed"},
                        rule="histories: every command sequence of the design model up to its depth bound (TLC), plus random long ones; "
                             "symbolic names aim at the names the library invents itself")
    out = tlc_model(wd, "o1", "OrderLaws", "OrderLaws.cfg", workers=8) + "\n"
    out2 = tlc_model(wd, "o2", "OrderLaws", "OrderLaws2.cfg", workers=8)
    a, b = core.parse_tlc_stats(out), core.parse_tlc_stats(out2)
    cases = [mono_history(r, "mono#%d" % i, r.choice([30, 80])) for i in range(700 if q else 6000)]
    for t in "gluch":
        cases += mono_exhaustive(r, t, 2, 2 if q else 4) + mono_exhaustive(r, t, 3, 1 if q else 2)
    return area.run(prop, wd, kf, "mono", "TraceMono", cases, limit=20, models=[lambda w, p: (a[1] + b[1], a[0] + b[0], [])],
                    extra={"model": "OrderLaws: the specified orders are admissible (exhaustive small bound)"},
                    rule="random histories of monomial operations under every order class, plus all pairs of small monomials")
