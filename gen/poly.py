"""Histories over polynomial objects (C06, C07, C08, C09, C10, C24)."""
import random
from fractions import Fraction
from vlib.core import Case, J
from vlib import area
from . import pyp
from .num import PRIMES

SMALLP = [2, 3, 5, 7, 11, 13, 101, 65521, 2147483647, 4294967291, 2**61 - 1, 18446744073709551557]


class Hist:
    """builds one history, with a shadow of the objects"""

    def __init__(self, r, nv, rings="Z", p=None, names=None):
        self.r, self.nv, self.p = r, nv, p
        self.st, self.reg = [], {}          # name -> [type, ordspec, value]
        if names is None:
            idx = r.sample(range(1, max(nv, r.choice([nv, nv + 2, 90])) + 1), nv)
            names = ["v%d" % i for i in idx]
            serial = idx
        else:
            serial = list(range(nv))
        self.byserial = sorted(range(1, nv + 1), key=lambda i: serial[i - 1])
        self.ev({"op": "setup"}, "vars " + " ".join(names))
        if p:
            self.ev({"op": "setup"}, "prime %d" % p)

    def ev(self, e, cmd):
        self.st.append((e, cmd))

    scale = 1

    def scaled(self, s=None):
        """from here on the objects hold x^(S e) for x^e: the ring operations must not notice"""
        r = self.r
        if s is None:
            k = r.choice([8, 10, 12, 15, 16, 20, 21, 24, 28, 30, 31, 31, 32, 32, 33, 36])
            s = r.choice([2**k - 1, 2**k, 2**k + 1, 2**k // 2 - 1, 2**k // 3 + 1, 2**k // 3])
        self.scale = s = max(1, int(s))
        self.ev({"op": "setup"}, "scale %d" % s)
        return self

    def within(self):
        """total degrees so far leave room for one more product"""
        return self.scale == 1 or all(sum(m) * self.scale < 2**59 for t, o, v in self.reg.values() for m in v)

    # types ---------------------------------------------------------------------------
    def ring(self, t):
        return {"Z": pyp.ZZ, "Q": pyp.QQ, "P": pyp.Ring("P", self.p)}[t[0]]

    def tnv(self, t):
        return 1 if t[1] == "U" else self.nv

    def order(self, t, o):
        if t[1] == "U":
            return (True, [1])
        pre = [] if o == "-" else [int(x) for x in o.split(",")]
        return (t[1] in "gh", pre + [i for i in self.byserial if i not in pre])

    def rnd_ord(self, t):
        if t[1] == "u":
            return str(self.r.randint(1, self.nv))
        if t[1] in "ch":
            k = self.r.randint(1, self.nv)
            return ",".join(str(i) for i in self.r.sample(range(1, self.nv + 1), k))
        return "-"

    def ojs(self, t, o):
        g, prec = self.order(t, o)
        return {"g": g, "prec": prec}

    def same(self, x, y):
        return self.reg[x][:2] == self.reg[y][:2]

    def val(self, x):
        return self.reg[x][2]

    # constructors --------------------------------------------------------------------
    def rnd_terms(self, t, val=None):
        """a term list denoting val (or a random value): shuffled, with splits, repeats, cancelling pairs, zeros"""
        r, R, nv = self.r, self.ring(t), self.tnv(t)
        if val is None:
            val = self.rnd_val(t)
        ts = [(m, c) for m, c in val.items()]
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            k = r.random()
            if ts and k < 0.5:
                m, c = r.choice(ts)
            else:
                m, c = pyp.rnd_mono(r, nv, 4), None
            a = pyp.rnd_coef(r, R)
            if k < 0.25:
                ts += [(m, R.c(a)), (m, R.c(-a))]
            elif k < 0.4:
                ts += [(m, R.c(0))]
            elif c is not None:
                ts.remove((m, c))
                ts += [(m, R.c(c - a)), (m, R.c(a))]
        j = r.random()
        if j < 0.7:
            r.shuffle(ts)
        return ts, val

    def rnd_val(self, t, d=None, n=None):
        r, R, nv = self.r, self.ring(t), self.tnv(t)
        k = r.random()
        if n is None:
            n = r.choice([0, 1, 1, 2, 3, 4, 6, 9, 14])
        if d is None:
            d = r.choice([0, 1, 1, 2, 3]) if self.scale > 1 else r.choice([0, 1, 2, 3, 5, 8, 15]) if k < 0.85 or n > 6 else r.choice([40, 255, 256, 2**14, 2**16 + 1, 2**20, 2**21 - 1, 2**27])
        return pyp.rnd_poly(r, R, nv, d, n, big=0.12 if r.random() < 0.5 else 0.0)

    def new(self, n, t, o=None, val=None, ts=None):
        o = self.rnd_ord(t) if o is None else o
        if ts is None:
            ts, val = self.rnd_terms(t, val)
        R = self.ring(t)
        route = self.r.choice(["vec", "mvec", "init", "data", "push"])
        self.ev({"op": "new", "d": n, "R": R.js(), "o": self.ojs(t, o), "nv": self.tnv(t), "ts": pyp.terms_js(R, ts)},
                "new %s %s %s %s %s" % (n, t, o, route, pyp.terms_cmd(R, ts, t[1] == "U")))
        self.reg[n] = [t, o, val]

    def reset_to(self, x, val=None):
        t, o, _ = self.reg[x]
        ts, val = self.rnd_terms(t, val)
        R = self.ring(t)
        self.ev({"op": "set", "x": x, "ts": pyp.terms_js(R, ts)},
                "p set %s %s %s" % (x, self.r.choice(["vec", "mvec", "init", "data", "push"]), pyp.terms_cmd(R, ts, t[1] == "U")))
        self.reg[x][2] = val

    def put(self, d, x, val):
        self.reg[d] = self.reg[x][:2] + [val]

    def okdest(self, d, x):
        """the driver writes into an existing object of the type only"""
        return d not in self.reg or self.reg[d][0] == self.reg[x][0]

    # operations ----------------------------------------------------------------------
    def binop(self, k, d, x, y):
        t = self.reg[x][0]; R = self.ring(t)
        a, b = self.val(x), self.val(y)
        self.ev({"op": "pbin", "k": k, "d": d, "x": x, "y": y}, "p %s %s %s %s" % (k, x, d, y))
        self.put(d, x, {"a": lambda: pyp.add(R, a, b), "s": lambda: pyp.sub(R, a, b), "m": lambda: pyp.mul(R, a, b)}[k.lstrip("v")[0]]())

    def vop(self, k, d, x, y):
        """direct form: the destination keeps its own order object, so it must have the same one"""
        if d in self.reg and not self.same(d, x):
            k = k[1:]
        elif d not in self.reg:
            pass
        self.binop(k, d, x, y)

    def unop(self, k, d, x, n=0, c=None):
        t = self.reg[x][0]; R = self.ring(t); nv = self.tnv(t)
        a = self.val(x)
        if k == "pow" and not a and t[0] == "P":
            n = max(n, 1)          # 0^0 over Z/p has no prime to take; documented precondition
        args = " %d" % n if k == "pow" else ""
        if k in ("scale", "cscale", "addc", "cadd", "subc", "csub", "addi", "iadd", "subi", "isub"):
            args = " " + ct_(R, c)
        if k in ("ineg", "clear", "normal"):
            d = x
            cmd = "p %s %s" % (k, x)
        else:
            cmd = "p %s %s %s%s" % (k, x, d, args)
        self.ev({"op": "pun", "k": k, "d": d, "x": x, "n": n, "c": pyp.cj(R, c) if c is not None else 0}, cmd)
        if k in ("neg", "ineg"):
            v = pyp.scale(R, a, -1)
        elif k in ("pos", "normal"):
            v = a
        elif k == "pow":
            v = pyp.power(R, nv, a, n)
        elif k in ("scale", "cscale"):
            v = pyp.scale(R, a, c)
        elif k == "clear":
            v = {}
        elif k in ("csub", "isub"):
            v = pyp.sub(R, pyp.const(R, nv, c), a)
        else:
            v = pyp.add(R, a, pyp.const(R, nv, c), -1 if k.startswith("sub") else 1)
        self.put(d, x, v)

    def monoop(self, k, d, x, m):
        R = self.ring(self.reg[x][0]); M = {m: R.c(1)}
        self.ev({"op": "pmono", "k": k, "d": d, "x": x, "m": list(m)}, "p %s %s %s %s" % (k, x, d, pyp.mono_cmd(m)))
        self.put(d, x, pyp.sub(R, M, self.val(x)) if k == "msub" else pyp.add(R, self.val(x), M, -1 if k == "subm" else 1))

    def cmp(self, x, y):
        self.ev({"op": "pcmp", "x": x, "y": y}, "p cmp %s %s" % (x, y))

    def copy(self, d, x, k="copy"):
        self.ev({"op": "copy", "d": d, "x": x}, "p %s %s %s" % (k, x, d))
        self.put(d, x, self.val(x))

    def move(self, d, x):
        self.ev({"op": "move", "d": d, "x": x}, "p move %s %s %s" % (x, d, x))
        v = self.reg[x]
        if d != x:
            del self.reg[x]
        self.reg[d] = list(v)

    def swap(self, x, y):
        self.ev({"op": "swap", "x": x, "y": y}, "p swap %s %s" % (x, y))
        self.reg[x], self.reg[y] = self.reg[y], self.reg[x]

    def text(self, x):
        self.ev({"op": "ptext", "x": x}, "p str %s" % x)

    def textl(self, xs, k):
        self.ev({"op": "ptext" + k, "xs": list(xs)}, "p str%s %s %d %s" % (k, xs[0], len(xs), " ".join(xs)))

    def query(self, x):
        self.ev({"op": "pquery", "x": x}, "p query %s" % x)

    def case(self, tag, seed=1):
        return Case(tag, self.st, seed)


def ct_(R, c):
    return pyp.ct(R, R.c(c) if R.k == "Q" else c)


def small(a, terms=40, bits=1500):
    return len(a) <= terms and pyp.maxbits(a) <= bits


TYPES = [k + o for k in "ZQP" for o in "gluchU"]


def rnd_type(r, ks="ZQP", os_="gluchU"):
    return r.choice(ks) + r.choice(os_)


def rnd_nv(r):
    return r.choice([1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 12, 20, 31, 32, 63, 64, 70])


# ----------------------------------------------------------------- arithmetic histories --
def ring_step(h, names, w):
    """one random ring operation over the registers in names (all the same type)"""
    r = h.r
    d, x, y = (r.choice(names) for _ in range(3))
    x = x if x in h.reg else r.choice(list(h.reg))
    y = y if y in h.reg else r.choice(list(h.reg))
    t = h.reg[x][0]; R = h.ring(t); nv = h.tnv(t)
    a, b = h.val(x), h.val(y)
    if not small(a):
        h.reset_to(x); return
    if not small(b):
        h.reset_to(y); return
    k = r.random()
    if k < 0.08:
        h.reset_to(x)
    elif k < 0.14:                        # force cancellation: y := -x + few terms
        v = pyp.add(R, pyp.scale(R, a, -1), h.rnd_val(t, n=r.choice([0, 1, 2])))
        h.reset_to(y, v)
        h.binop("add", d, x, y)
    elif k < 0.55 and h.same(x, y):
        op = r.choice(["add", "sub", "mul", "mul"])
        if len(a) * len(b) > 250 and op == "mul":
            op = "sub"
        if op == "mul" and max([max(m) for m in list(a) + list(b)] or [0]) > 2**28:
            op = "add"
        if r.random() < 0.5 and h.okdest(d, x):
            h.vop("v" + op, d, x, y)
        else:
            h.binop(op, d, x, y)
    elif k < 0.62:
        h.unop(r.choice(["neg", "pos", "ineg", "normal", "neg"]), d, x)
    elif k < 0.70:
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        if len(a) > 4:
            n = min(n, 2)
        if len(a) > 12 or pyp.maxbits(a) > 300:
            n = min(n, 1)
        if max([max(m) for m in a] or [0]) > 2**25:
            n = min(n, 2)
        h.unop("pow", d, x, n)
    elif k < 0.78:
        c = r.choice([0, 1, -1, pyp.rnd_coef(r, R), pyp.rnd_coef(r, R)])
        if t[1] in "ch" and c == 0 and not DEFCOMP:
            c = 1
        op = "cscale" if t[1] == "U" and r.random() < .5 else "scale"
        h.unop(op, d, x, 0, R.c(c))
    elif k < 0.86 and t[1] == "g":
        z = a.get((0,) * nv, 0)
        c = r.choice([0, 1, -z, z, pyp.rnd_coef(r, R)])
        if t[0] == "P" or r.random() < 0.5:
            h.unop(r.choice(["addc", "cadd", "subc", "csub"]), d, x, 0, R.c(c))
        elif r.random() < 0.6:
            c = r.choice([0, 1, -1, 5, -2**62, 2**63 - 1, int(-z) if abs(z) < 2**62 and z == int(z) else 3])
            h.unop(r.choice(["addi", "iadd", "subi", "isub"]), d, x, 0, R.c(c))
        else:
            m = r.choice(list(a)) if a and r.random() < .6 else pyp.rnd_mono(r, nv, 4)
            h.monoop(r.choice(["addm", "madd", "subm", "msub"]), d, x, m)
    elif k < 0.92:
        h.copy(d, x, r.choice(["copy", "ctor"]) if h.okdest(d, x) else "copy")
    elif r.random() < .4 and a and h.okdest(d, x) and d != x:
        near = dict(a); m = min(near, key=lambda m: sum(m)) if r.random() < .6 else r.choice(list(near))
        if r.random() < .35:
            del near[m]
        else:
            if r.random() < .4:
                m = tuple(e // 2 for e in m)
            near[m] = near.get(m, 0) + r.choice([1, -1, 2])
        h.new(d, t, h.reg[x][1], pyp.norm(R, near))
        h.cmp(x, d); h.cmp(d, x)
    elif h.same(x, y):
        h.cmp(x, y)


DEFCOMP = True


def ring_history(r, tag, length, t=None, nv=None, scaled=False):
    t = t or rnd_type(r)
    h = Hist(r, nv or rnd_nv(r), p=r.choice(PRIMES) if t[0] == "P" else None)
    if scaled:
        h.scaled()
    o = h.rnd_ord(t)
    names = "abc"
    for n in names:
        h.new(n, t, o)
    for _ in range(length):
        ring_step(h, names, None)
        if not h.within():
            break
    h.query("a")
    return h.case(tag)


def packing_history(r, tag, scaled=False):
    """degrees at the edge of the packed exponent fields for every number of variables"""
    t = r.choice("ZQP") + r.choice("glgluch")
    nv = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 21, 31, 32, 33, 63, 64, 65, 70])
    h = Hist(r, nv, p=r.choice(PRIMES) if t[0] == "P" else None)
    o = h.rnd_ord(t)
    R = h.ring(t)
    l = 64 // (nv + 1) if t[1] in "gh" else 64 // nv
    if scaled:
        l = min(l, 58)
    if scaled:
        h.scaled(2**max(0, l - 18) + r.choice([0, 0, 1, -1, 2]) if l > 19 else r.choice([2**l - 1, 2**l, 2**l + 1, 2**(l - 1), 2**l // 3 + 1]))
        l = min(18, l) if l > 19 else r.choice([1, 2])
    l = max(1, min(l, 28))
    if r.random() < 0.3:
        l = max(1, min(28, l + r.choice([-1, 1])))
    cap = 2**l

    def edge(vs):
        tot = r.choice([cap - 1, cap // 2, cap // 2 - 1, cap // 2 + 1, cap, cap + 1, max(1, cap - r.randint(0, 9)), r.randint(0, cap)])
        e = [0] * nv
        v = r.choice(vs)
        k = r.randint(0, tot) if r.random() < .4 else 0
        e[v - 1] = max(0, tot - k)
        e[r.choice(vs) - 1] += k
        return tuple(e)
    vs = list(range(1, nv + 1))

    def poly(n):
        return pyp.norm(R, {**{edge(vs): pyp.rnd_coef(r, R, 0.05) for _ in range(n)}, **pyp.rnd_poly(r, R, nv, 3, r.randint(0, 3), 0)})
    # make sure every variable of the universe occurs, so that the field width is the intended one
    allv = {tuple(1 for _ in range(nv)): R.c(1)} if r.random() < 0.7 and nv <= cap else {}
    h.new("a", t, o, pyp.add(R, poly(r.randint(1, 3)), allv))
    h.new("b", t, o, pyp.add(R, poly(r.randint(1, 3)), pyp.var(R, nv, r.randint(1, nv)) if r.random() < .5 else {}))
    for x, y in (("a", "b"), ("b", "a"), ("a", "a")):
        h.binop("mul", "m", x, y)
        h.ev({"op": "pquot", "d": "q", "x": "m", "y": y}, "p quo m q %s" % y)
        h.reg["q"] = [t, o, h.val(x)]
        h.cmp("q", x)
    h.binop("add", "s", "a", "b")
    h.binop("mul", "m", "s", "s")
    n = [0]
    if h.val("a"):
        pydiv(h, t, o, h.val("m"), h.val("a"), n)
    if n[0] >= 400 or not h.val("a"):
        pass
    elif t[0] != "Q":
        h.ev({"op": "pdivqr", "d": "q", "e": "r", "x": "m", "y": "a"}, "p divqr m q r a")
    else:
        h.ev({"op": "pquot", "d": "q", "x": "m", "y": "a"}, "p quo m q a")
    return h.case(tag)


# ------------------------------------------------------------------ aliasing histories --
def value_history(r, tag, length):
    """several types and orders at once; every object is watched after every call"""
    p = r.choice(PRIMES)
    h = Hist(r, r.choice([1, 2, 3, 4]), p=p)
    ts = [rnd_type(r) for _ in range(r.choice([1, 1, 2, 3]))]
    os_ = {t: [h.rnd_ord(t) for _ in range(r.choice([1, 1, 2]))] for t in ts}
    names = "abcdef"
    for n in names[:4]:
        t = r.choice(ts)
        h.new(n, t, r.choice(os_[t]))
    for _ in range(length):
        live = sorted(h.reg)
        x = r.choice(live); t, o, a = h.reg[x]; R = h.ring(t)
        d = r.choice(names)
        peers = [n for n in live if h.same(n, x)]
        y = r.choice(peers)
        if not small(a, 25, 600):
            h.reset_to(x); continue
        if not small(h.val(y), 25, 600):
            h.reset_to(y); continue
        k = r.random()
        if k < 0.05:
            t = r.choice(ts)
            h.new(d, t, r.choice(os_[t]))
        elif k < 0.10:
            h.reset_to(x)
        elif k < 0.38:
            op = r.choice(["add", "sub", "mul"])
            d = r.choice([x, y, d])
            if h.okdest(d, x) and r.random() < .7:
                h.vop("v" + op, d, x, y)
            elif h.okdest(d, x):
                h.binop(op, d, x, y)
        elif k < 0.44:
            if h.okdest(d, x):
                h.copy(d, x, r.choice(["copy", "ctor"]))
        elif k < 0.52:
            if h.okdest(d, x) and len(live) > 2:
                h.move(r.choice([d, d, x]) if h.okdest(d, x) else x, x)
        elif k < 0.60:
            h.swap(x, r.choice([n for n in live if h.reg[n][0] == t]))
        elif k < 0.64:
            h.unop(r.choice(["ineg", "clear", "normal"]), x, x)
        elif k < 0.70:
            if h.okdest(d, x):
                h.unop(r.choice(["neg", "pos"]), d, x)
        elif k < 0.74:
            if h.okdest(d, x) and len(a) < 5:
                h.unop("pow", d, x, r.choice([0, 1, 2, 3]))
        elif k < 0.78:
            if h.okdest(d, x):
                h.unop("scale", d, x, 0, R.c(r.choice([0, 1, -1, 2, 7])))
        elif k < 0.84:
            h.cmp(x, y)
        elif k < 0.90 and h.val(y):
            quotient(h, r.choice([d, x, y]), x, y)
        elif k < 0.94 and t[1] != "U":
            deriv(h, r.choice([d, x]), x)
        elif k < 0.97:
            h.text(x)
        else:
            if len(live) > 3:
                h.ev({"op": "drop", "x": x}, "drop %s" % x); del h.reg[x]
    return h.case(tag)


def quotient(h, d, x, y):
    """division whose result the shadow can predict (exact), else a fresh destination"""
    R = h.ring(h.reg[x][0])
    if not h.okdest(d, x):
        return
    t, o, a = h.reg[x]; b = h.val(y)
    n = [0]
    q, r_ = pydiv(h, t, o, a, b, n)
    if n[0] >= 150:
        return
    al = (d in (x, y)) and h.r.random() < .6 or (d in h.reg and h.same(d, x) and h.r.random() < .5)
    h.ev({"op": "pquot", "d": d, "x": x, "y": y}, "p %s %s %s %s" % ("vquo" if al and h.same(d, x) else "quo", x, d, y))
    h.put(d, x, q)


def pydiv(h, t, o, a, b, steps=None):
    """the library's multivariate division: integer quotient rounded down, non-divisible terms to the remainder"""
    R = h.ring(t); order = h.order(t, o)
    f, q, r = dict(a), {}, {}
    lm = max(b, key=lambda m: pyp.key(order, m)); lc = b[lm]
    n = 0
    while f and n < 400:
        n += 1
        m = max(f, key=lambda m: pyp.key(order, m)); c = f[m]
        e = tuple(x - y for x, y in zip(m, lm))
        if min(e) < 0:
            r[m] = c; del f[m]; continue
        if R.k == "Z":
            k = c // lc
        elif R.k == "Q":
            k = c / lc
        else:
            k = c * pow(lc, -1, R.p) % R.p
        if k == 0:
            r[m] = c; del f[m]; continue
        q[e] = k
        f = pyp.sub(R, f, pyp.mul(R, {e: k}, b))
        if m in f:
            r[m] = f[m]; del f[m]
    if steps is not None:
        steps[0] = n
    return q, r


def deriv(h, d, x):
    t, o, a = h.reg[x]; R = h.ring(t)
    if not h.okdest(d, x):
        return
    if t[1] == "U":
        h.ev({"op": "pderiv", "d": d, "x": x, "v": 1}, "p deriv %s %s" % (x, d)); v = 1
    else:
        v = h.r.randint(1, h.nv)
        h.ev({"op": "pderiv", "d": d, "x": x, "v": v}, "p deriv %s %s %d" % (x, d, v))
    h.put(d, x, pyp.deriv(R, a, v))


# ------------------------------------------------------------------------ division ------
def division_history(r, tag, n):
    t = rnd_type(r)
    h = Hist(r, rnd_nv(r) if r.random() < .4 else r.choice([1, 2, 3]), p=r.choice(PRIMES if r.random() < .5 else SMALLP) if t[0] == "P" else None)
    o = h.rnd_ord(t); R = h.ring(t); nv = h.tnv(t)
    sc = r.random() < .25
    if sc:
        h.scaled()
    for _ in range(n):
        k = r.random()
        d = r.choice([1, 2, 3]) if sc else r.choice([1, 2, 3, 5, 9]) if r.random() < .85 else r.choice([60, 255, 1023, 2**15, 2**21])
        g = {}
        while not g:
            g = pyp.rnd_poly(r, R, nv, d, r.choice([1, 1, 2, 3, 4]), r.choice([0, 0.1]))
        if r.random() < .25 and R.k == "Z":      # monic-ish or content-rich divisors
            g = pyp.scale(R, g, r.choice([2, 3, -1, 6, 2**32, 2**63]))
        q = pyp.rnd_poly(r, R, nv, d, r.choice([0, 1, 2, 4, 7]), r.choice([0, 0.1]))
        f = pyp.mul(R, g, q)
        if k > 0.35:
            f = pyp.add(R, f, pyp.rnd_poly(r, R, nv, r.choice([0, d, d + 1]), r.choice([1, 2, 4]), 0.05))
        if k > 0.85:
            f = pyp.rnd_poly(r, R, nv, d + 1, r.choice([1, 3, 6, 10]), 0.05)
        if k > 0.98:
            g = {}
        h.new("f", t, o, f); h.new("g", t, o, g)
        if g:
            n = [0]
            qq, rr = pydiv(h, t, o, f, g, n)
            if n[0] >= 400 or not small(qq, 80, 4000):
                continue
        h.ev({"op": "pquot", "d": "q", "x": "f", "y": "g"}, "p quo f q g")
        if t[0] != "Q":
            h.ev({"op": "pdivqr", "d": "q", "e": "r", "x": "f", "y": "g"}, "p divqr f q r g")
            if len(f) <= 20:
                h.ev({"op": "prem1", "d": "s", "x": "f", "y": "g"}, "p rem f s g")
        if not g:
            continue
        a = r.random()
        if a < .15:
            h.ev({"op": "pquot", "d": "f", "x": "f", "y": "g"}, "p vquo f f g")
        elif a < .3:
            h.ev({"op": "pquot", "d": "g", "x": "f", "y": "g"}, "p vquo f g g")
        elif a < .4:
            h.ev({"op": "pquot", "d": "f", "x": "f", "y": "f"}, "p vquo f f f") if f else None
        elif a < .5 and t[0] != "Q":
            h.ev({"op": "pdivqr", "d": "f", "e": "g", "x": "f", "y": "g"}, "p divqr f f g g")
        elif a < .6 and t[0] != "Q":
            h.ev({"op": "pdivqr", "d": "g", "e": "f", "x": "f", "y": "g"}, "p divqr f g f g")
        elif a < .9 and t[0] != "Q":
            d, e = r.choice([("f", "r"), ("g", "r"), ("q", "f"), ("q", "g")])
            h.ev({"op": "pdivqr", "d": d, "e": e, "x": "f", "y": "g"}, "p divqr f %s %s g" % (d, e))
    return h.case(tag)


def pseudo_history(r, tag, n):
    t = r.choice("ZQP" if r.random() < .8 else "P") + r.choice("lcluchgU")
    if t[0] == "P":
        t = "P" + r.choice("lcu")
    if t == "QU":
        t = "ZU"
    h = Hist(r, r.choice([1, 2, 3, 3, 4, 9]), p=r.choice(SMALLP) if t[0] == "P" else None)
    o = h.rnd_ord(t); R = h.ring(t); nv = h.tnv(t)
    for _ in range(n):
        v = r.randint(1, nv)
        lexy = t[1] in "luc"
        if lexy and r.random() < .6:                # main variable of the order
            v = h.order(t, o)[1][0]
        f = {}
        while not f:
            f = pyp.rnd_poly(r, R, nv, r.choice([1, 2, 3]), r.choice([1, 2, 3, 4]), 0.03)
        g = pyp.rnd_poly(r, R, nv, r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 3, 5]), 0.03)
        if r.random() < .3:
            g = pyp.mul(R, f, g)
        if r.random() < .02:
            f = {}
        if pyp.deg(g, v) - pyp.deg(f, v) > 6 or len(f) ** (max(0, pyp.deg(g, v) - pyp.deg(f, v)) + 1) > 3000:
            continue
        h.new("g", t, o, g); h.new("f", t, o, f)
        L = r.choice([0, 1])
        if t[1] == "U":
            if t[0] == "Z" and f:
                h.ev({"op": "pprem", "d": "r", "x": "g", "y": "f", "v": 1, "n": L}, "p uprem g r f %d" % L)
            continue
        main = lexy and all(h.order(t, o)[1].index(v) <= h.order(t, o)[1].index(u) for u in pyp.used(f) | pyp.used(g))
        if main and f:
            h.ev({"op": "pprem", "d": "r", "x": "g", "y": "f", "v": v, "n": L}, "p prem0 g r f %d %d" % (v, L))
            h.ev({"op": "ppquo", "d": "q", "e": "s", "x": "g", "y": "f", "v": v, "n": L}, "p pquo0 g q s f %d %d" % (v, L))
        if t[0] != "P":
            h.ev({"op": "pprem", "d": "r", "x": "g", "y": "f", "v": v, "n": L}, "p prem g r f %d %d" % (v, L))
            h.ev({"op": "ppquo", "d": "q", "e": "s", "x": "g", "y": "f", "v": v, "n": L}, "p pquo g q s f %d %d" % (v, L))
            h.ev({"op": "ppquo", "d": "q", "e": "", "x": "g", "y": "f", "v": v, "n": 1}, "p pquo1 g q f %d 1" % v)
            if r.random() < .2 and f:
                h.ev({"op": "pprem", "d": "g", "x": "g", "y": "f", "v": v, "n": 1}, "p prem g g f %d 1" % v)
    return h.case(tag)


# ------------------------------------------------------------- structure and evaluation --
def calculus_history(r, tag, n):
    t = rnd_type(r)
    h = Hist(r, r.choice([1, 2, 3, 3, 4, 7, 20, 40]), p=r.choice(SMALLP) if t[0] == "P" else None)
    o = h.rnd_ord(t); R = h.ring(t); nv = h.tnv(t)

    def fresh(x):
        val = h.rnd_val(t)
        if r.random() < .5:
            val = h.rnd_val(t, d=r.choice([1, 2, 3, 4]))
        if t[0] == "P" and r.random() < .4:         # exponents divisible by p: derivatives vanish
            val = {tuple(e * R.p if R.p < 200 and e < 50 else e for e in m): c for m, c in val.items()}
        val = {m: c for m, c in val.items() if sum(m) < 2**20}
        h.new(x, t, o, val)

    def value():
        k = r.random()
        c = r.choice([0, 1, -1, 2, -3]) if k < .6 else pyp.rnd_coef(r, R, 0.2)
        return R.c(c)
    for _ in range(n):
        fresh("a"); fresh("b")
        a = h.val("a")
        h.query("a")
        if t[1] != "U":
            for v in ([r.randint(1, nv)] + [r.randint(1, nv)]):
                h.ev({"op": "pqvar", "x": "a", "v": v}, "p qvar a %d" % v)
                h.ev({"op": "plc", "d": "l", "x": "a", "v": v}, "p lc a l %d" % v)
                if t[0] != "P" and pyp.deg(a, v) < 60:
                    h.ev({"op": "pcoeff", "x": "a", "v": v}, "p coeff a %d" % v)
            if t[1] in "luc":
                h.ev({"op": "pfirst", "x": "a"}, "p first a")
                h.ev({"op": "pderiv1", "d": "d", "x": "a"}, "p deriv1 a d")
                if t[0] == "Z" and pyp.used(a):
                    h.ev({"op": "plc1", "d": "l", "x": "a"}, "p lc1 a l")
            if t[1] == "u":
                v = int(o)
                if pyp.deg(a, v) < 60:
                    h.ev({"op": "pcoeff", "x": "a", "v": v}, "p coeff1 a")
                if t[0] == "Z" or True:
                    h.ev({"op": "pupdeg", "x": "a", "v": v}, "p updeg a")
        deriv(h, "d", "a"); deriv(h, "d", "d")
        # Leibniz, through the library's own operations (each is checked on its own as well)
        if len(a) * len(h.val("b")) < 60:
            h.binop("mul", "m", "a", "b"); deriv(h, "d", "m")
        # evaluation
        if max([max(m) for m in a] or [0]) > 100:
            continue
        if t[1] == "U":
            c = value()
            h.ev({"op": "pvalue", "x": "a", "c": pyp.cj(R, c)}, "p assign a %s" % pyp.ct(R, c))
            if t[0] == "Z":
                q = pyp.QQ.c(Fraction(r.randint(-20, 20), r.randint(1, 9)))
                h.ev({"op": "pvalueq", "x": "a", "c": pyp.cj(pyp.QQ, q)}, "p assignq a %s" % pyp.ct(pyp.QQ, q))
                h.ev({"op": "pcont", "x": "a"}, "p cont a")
            continue
        if nv > 12:
            vs = r.sample(range(1, nv + 1), 3) + sorted(pyp.used(a))[:3]
        else:
            vs = list(range(1, nv + 1))
        r.shuffle(vs)
        vs = list(dict.fromkeys(vs))[:r.randint(1, len(vs))]
        vals = [(v, value()) for v in vs]
        js = [[v, pyp.cj(R, c)] for v, c in vals]
        tx = " ".join("%d %s" % (v, pyp.ct(R, c)) for v, c in vals)
        h.ev({"op": "passign", "d": "e", "x": "a", "vals": js}, "p assignm a e %d %s" % (len(vals), tx))
        x = "a"
        for v, c in r.sample(vals, len(vals)):
            h.ev({"op": "passign", "d": "e2", "x": x, "vals": [[v, pyp.cj(R, c)]]}, "p assign %s e2 %d %s" % (x, v, pyp.ct(R, c)))
            x = "e2"
        h.reg["e"] = h.reg["e2"] = [t, o, None]
        h.cmp("e", "e2")
        if t[0] == "Z" and t[1] != "U":
            Q = pyp.QQ
            vals = [(v, Q.c(Fraction(r.randint(-9, 9), r.randint(1, 5)))) for v in vs]
            h.ev({"op": "passignq", "d": "eq", "x": "a", "vals": [[v, pyp.cj(Q, c)] for v, c in vals]},
                 "p assignq a eq %d %s" % (len(vals), " ".join("%d %s" % (v, pyp.ct(Q, c)) for v, c in vals)))
    return h.case(tag)


def big_calculus_history(r, tag, n):
    """the same with exponents far beyond 32 bits: the objects hold p(x^S)"""
    t = rnd_type(r)
    h = Hist(r, r.choice([1, 2, 3, 3, 4, 7]), p=r.choice(SMALLP) if t[0] == "P" else None).scaled()
    o = h.rnd_ord(t); R = h.ring(t); nv = h.tnv(t); S = J(h.scale)
    one = pyp.ct(R, R.c(1))
    for _ in range(n):
        val = {m: c for m, c in h.rnd_val(t, d=r.choice([1, 2, 3, 4])).items() if sum(m) < 200}
        if not val:
            continue
        h.new("a", t, o, val)
        h.query("a")
        if t[1] == "U":
            h.ev({"op": "peuler", "d": "d", "x": "a", "v": 1, "S": S}, "p euler a d %s" % one)
            c = R.c(r.choice([0, 1, -1])) if t[0] != "P" else R.c(r.randint(0, R.p - 1))
            h.ev({"op": "pvalue", "x": "a", "c": pyp.cj(R, c), "S": S}, "p assign a %s" % pyp.ct(R, c))
            continue
        for v in {r.randint(1, nv), r.choice(sorted(pyp.used(val)) or [1])}:
            h.ev({"op": "pqvar", "x": "a", "v": v}, "p qvar a %d" % v)
            h.ev({"op": "plc", "d": "l", "x": "a", "v": v}, "p lc a l %d" % v)
            h.ev({"op": "peuler", "d": "d", "x": "a", "v": v, "S": S}, "p euler a d %d %s" % (v, one))
        if t[1] in "luc":
            h.ev({"op": "pfirst", "x": "a"}, "p first a")
            h.ev({"op": "peuler1", "d": "d", "x": "a", "S": S}, "p euler1 a d %s" % one)
            if t[0] == "Z" and pyp.used(val):
                h.ev({"op": "plc1", "d": "l", "x": "a"}, "p lc1 a l")
        if t[1] == "u":
            h.ev({"op": "pupdeg", "x": "a", "v": int(o)}, "p updeg a")
        vs = r.sample(range(1, nv + 1), r.randint(1, min(nv, 3)))
        vals = [(v, R.c(r.choice([0, 1, -1])) if t[0] != "P" else R.c(r.randint(0, R.p - 1))) for v in vs]
        js = [[v, pyp.cj(R, c)] for v, c in vals]
        tx = " ".join("%d %s" % (v, pyp.ct(R, c)) for v, c in vals)
        h.ev({"op": "passign", "d": "e", "x": "a", "vals": js, "S": S}, "p assignm a e %d %s" % (len(vals), tx))
        v, c = vals[0]
        h.ev({"op": "passign", "d": "e2", "x": "a", "vals": [[v, pyp.cj(R, c)]], "S": S}, "p assign a e2 %d %s" % (v, pyp.ct(R, c)))
    return h.case(tag)


# --------------------------------------------------------------------- conversions ------
CROSS = [("Zg", "Qg"), ("Zg", "Ql"), ("Zl", "Qg"), ("Zc", "Qu"), ("Qg", "Zg"), ("Qg", "Zl"), ("Ql", "Zg"), ("Qu", "Zc"),
         ("Pg", "Zg"), ("Pg", "Zl"), ("Pl", "Zg"), ("ZU", "QU"), ("QU", "ZU"), ("PU", "ZU"), ("ZU", "PU")]


def conv_history(r, tag, n):
    h = Hist(r, r.choice([1, 2, 3, 4, 6, 11, 30]), p=r.choice(SMALLP))
    for i in range(n):
        k = r.random()
        if k < .55:
            ring = r.choice("ZQ")
            chain = [ring + r.choice("gluch") for _ in range(r.choice([2, 3, 4]))]
        elif k < .85:
            a, b = r.choice(CROSS)
            chain = [a, b] + ([a] if (b, a) in CROSS and r.random() < .5 else [])
        elif k < .93:
            uni_steps(h); continue
        else:
            t = "Z" + r.choice("gluch"); o = h.rnd_ord(t)
            v = h.rnd_val(t)
            if r.random() < .5:
                v = {m: c * h.p if r.random() < .5 and abs(c * h.p) < 2**200 else c for m, c in v.items()}
            h.new("a", t, o, v)
            h.ev({"op": "pconv", "d": "m", "x": "a", "R": pyp.Ring("P", h.p).js(), "o": h.ojs(t, o), "nv": h.nv}, "p mod a m %d" % r.choice([0, 1]))
            continue
        x = "a%d" % (i % 3)
        t = chain[0]
        first = h.rnd_ord(t)
        h.new(x, t, first)
        prev, pt = x, t
        for j, t2 in enumerate(chain[1:]):
            o = h.rnd_ord(t2)
            if j == len(chain) - 2 and t2 == chain[0] and r.random() < .7:
                o = first
            d = "c%d" % j
            h.ev({"op": "pconv", "d": d, "x": prev, "R": h.ring(t2).js(), "o": h.ojs(t2, o), "nv": h.tnv(t2)},
                 "conv %s %s %s %s %s %d" % (d, t2, o, prev, pt, r.choice([0, 1])))
            h.reg[d] = [t2, o, None]
            prev, pt = d, t2
            h.query(d)
        if h.reg[prev][:2] == h.reg[x][:2] and all(c[0] == chain[0][0] for c in chain):
            h.cmp(prev, x)
    return h.case(tag)


def uni_steps(h):
    r = h.r
    ring = r.choice("ZQP")
    t = ring + r.choice("gluch"); o = h.rnd_ord(t); R = h.ring(t)
    v = r.randint(1, h.nv)
    val = pyp.norm(R, {tuple(e if i == v - 1 else 0 for i in range(h.nv)): pyp.rnd_coef(r, R)
                       for e in [r.choice([0, 1, 2, 3, 7, 30, 2**20]) for _ in range(r.choice([0, 1, 2, 4, 8]))]})
    h.new("a", t, o, val)
    S = pyp.QQ if ring == "Z" and r.random() < .3 else R
    h.ev({"op": "ptou", "d": "u", "x": "a", "R": S.js(), "o": {"g": True, "prec": [1]}}, "p %s a u" % ("touq" if S is not R and ring == "Z" else "tou"))
    if S.k == R.k:
        h.new("b", t, o)
        w = r.randint(1, h.nv)
        h.ev({"op": "pfromu", "x": "b", "y": "u", "v": w}, "p fromu b u %d" % w)
        h.reg["b"] = [t, o, None]
        if w == v:
            h.cmp("a", "b")
    t2 = ring + "U"
    h.new("u2", t2, "-")
    h.new("b2", t, o, {})
    w = r.randint(1, h.nv)
    h.ev({"op": "pfromu", "x": "b2", "y": "u2", "v": w}, "p fromu b2 u2 %d" % w)


# ------------------------------------------------------------------------- printing -----
def text_history(r, tag, n):
    names = None
    if r.random() < .5:
        pool = ["x", "y", "z", "x1", "y_2", "alpha", "B", "t0", "abc", "q", "v1", "v22"]
        nv = r.choice([1, 2, 3, 4])
        names = r.sample(pool[:-2], nv)
    else:
        nv = r.choice([1, 2, 3, 4, 12])
    h = Hist(r, nv, p=r.choice(SMALLP), names=names)
    # names registered by earlier cases of the same process keep their first position: use orders that do not depend on it
    for _ in range(n):
        t = rnd_type(r, os_="cchhgluU" if names is None else "chU")
        o = ",".join(str(i) for i in r.sample(range(1, nv + 1), nv)) if t[1] in "ch" else h.rnd_ord(t)
        R = h.ring(t); m = h.tnv(t)
        k = r.random()
        if k < .25:                # constants, zero, units
            val = pyp.const(R, m, r.choice([0, 1, -1, 2, pyp.rnd_coef(r, R, .3)]))
        elif k < .6:               # unit and negative-unit coefficients in every position
            val = {}
            for _ in range(r.randint(1, 4)):
                val[pyp.rnd_mono(r, m, 3)] = R.c(r.choice([1, -1, 1, -1, Fraction(-1, 2) if R.k == "Q" else -1, Fraction(1, 3) if R.k == "Q" else 2]))
            val = pyp.norm(R, val)
        else:
            val = h.rnd_val(t)
        h.new("a", t, o, val)
        h.text("a")
        if r.random() < .2:
            xs = ["a"]
            for x in r.sample(["b", "c", "d"], r.choice([0, 1, 2, 3])):
                h.new(x, t, o, r.choice([val, {}, pyp.const(R, m, r.choice([1, -1, 5])), h.rnd_val(t), h.rnd_val(t)]))
                xs.insert(r.randint(0, len(xs)), x)
            if r.random() < .3:
                xs.append(r.choice(xs))
            h.textl(xs, r.choice("ls") if t[0] != "P" else "l")
    return h.case(tag)


def big_text_history(r, tag, n):
    """exponents beyond every machine width but 64 bits"""
    nv = r.choice([1, 2, 3])
    h = Hist(r, nv, p=r.choice(SMALLP))
    h.scaled()
    for _ in range(n):
        t = rnd_type(r, os_="cchhgluU")
        o = ",".join(str(i) for i in r.sample(range(1, nv + 1), nv)) if t[1] in "ch" else h.rnd_ord(t)
        h.new("a", t, o, h.rnd_val(t))
        h.text("a")
    return h.case(tag)


# ------------------------------------------------------------- small exhaustive spaces ---
def exhaustive(r, t, exps, coefs, op):
    """all ordered pairs of polynomials with the given exponents and coefficients"""
    import itertools
    out = []
    p = 3 if t[0] == "P" else None
    h0 = None
    polys = [dict((m, c) for m, c in zip(exps, cs) if c) for cs in itertools.product(coefs, repeat=len(exps))]
    for a in polys:
        h = Hist(random.Random(1), len(exps[0]) if t[1] != "U" else 1, p=p)
        h.r = r
        R = h.ring(t)
        o = "-" if t[1] in "glU" else h.rnd_ord(t)
        h.new("a", t, o, pyp.norm(R, a))
        for b in polys:
            h.new("b", t, o, pyp.norm(R, b))
            if op == "ring":
                for k in ("add", "sub", "mul"):
                    h.binop(k, "d", "a", "b")
            else:
                if h.val("b"):
                    h.ev({"op": "pquot", "d": "q", "x": "a", "y": "b"}, "p quo a q b")
                    if t[0] != "Q":
                        h.ev({"op": "pdivqr", "d": "q", "e": "r", "x": "a", "y": "b"}, "p divqr a q r b")
        out.append(h.case("all-%s-%s" % (op, t)))
    return out


def cases(prop, tier, seed):
    r = random.Random("%s-%d" % (prop, seed))
    q = tier == "quick"
    out = []

    def many(n, f, *a):
        for i in range(n if q else n * 12):
            out.append(f(r, "%s#%d" % (f.__name__, i), *a))
    if prop == "C06":
        for t in TYPES:
            many(12, ring_history, 14, t)
            many(6, ring_history, 12, t, None, True)
        many(500, packing_history)
        many(300, packing_history, True)
        out += exhaustive(r, "Zg", [(2, 0), (1, 1), (0, 1)], [-1, 0, 1], "ring")
        out += exhaustive(r, "Pl", [(2, 0), (1, 1), (0, 0)], [0, 1, 2], "ring")
    elif prop == "C07":
        many(900, value_history, 30)
    elif prop == "C08":
        many(500, division_history, 5)
        many(320, pseudo_history, 5)
        many(80, packing_history)
        out += exhaustive(r, "Zl", [(1, 1), (1, 0), (0, 0)], [-2, 0, 1, 3], "div")
        out += exhaustive(r, "Pg", [(2, 0), (0, 1), (0, 0)], [0, 1, 2], "div")
    elif prop == "C09":
        many(700, calculus_history, 3)
        many(300, big_calculus_history, 3)
    elif prop == "C10":
        many(900, conv_history, 5)
    elif prop == "C24":
        many(1500, text_history, 8)
        many(300, big_text_history, 5)
    return out


def check(prop, tier, seed, wd, kf):
    from . import models
    return area.run(prop, wd, kf, "poly", "TracePoly", cases(prop, tier, seed), limit=30, models=[models.laws("Poly")] if prop == "C06" else [],
                    rule="a case is one history of calls over polynomial objects of one or several types; distinct = different command sequences")
