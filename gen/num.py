"""Histories for ZZ, QQ (register machine) and operand sets for Zp."""
import itertools, random
from fractions import Fraction
from math import gcd
from vlib.core import Case, J
from vlib import area

I64MAX = 2**63 - 1
BOUNDARY = sorted(set(
    [0, 1, -1, 2, -2, 3, -3, 5, 7, 10, -10, 9999, 10000, 10**16] +
    [s * (2**k + d) for s in (1, -1) for k in (15, 16, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 192) for d in (-2, -1, 0, 1, 2)] +
    [s * 3037000499 for s in (1, -1)] + [s * 3037000500 for s in (1, -1)] +
    [10**18, -10**18, 10**19, 10**40, -(10**40)]))


def rnd_int(r, bits=None):
    k = r.random()
    if k < 0.45:
        return r.choice(BOUNDARY)
    if k < 0.6:
        return r.choice([1, -1]) * r.randint(0, 50)
    b = r.choice([8, 31, 32, 62, 63, 64, 65, 100, 128, 200, 500]) if bits is None else bits
    v = r.getrandbits(b)
    if k < 0.7:
        v = (1 << b) - 1 - r.getrandbits(3)
    return -v if r.random() < 0.5 else v


def const_cmd(r, n, v):
    ks = [k for k, lo, hi in (("int", -2**31, 2**31 - 1), ("uint", 0, 2**32 - 1), ("long", -2**63, I64MAX), ("ulong", 0, 2**64 - 1),
                              ("ll", -2**63, I64MAX), ("ull", 0, 2**64 - 1)) if lo <= v <= hi]
    c = r.random()
    if ks and c < 0.6:
        return ("zz.i" if r.random() < 0.5 else "zz.seti") + " %s %s %d" % (n, r.choice(ks), v)
    return r.choice(["zz.str", "zz.sstr", "zz.mpz"]) + " %s %d" % (n, v)


def const(r, n, v):
    return ({"op": "const", "d": n, "v": J(v)}, const_cmd(r, n, v))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


LIMIT = 2**2600


def zz_history(r, tag, length, nreg=4):
    names = "abcdef"[:nreg]
    reg, st = {}, []

    def need(n):
        if n not in reg:
            v = rnd_int(r)
            st.append(const(r, n, v))
            reg[n] = v
    for _ in range(length):
        d, x, y = r.choice(names), r.choice(names), r.choice(names)
        k = r.random()
        for n in (x, y):
            need(n)
        vx, vy = reg[x], reg[y]
        if r.random() < 0.02:
            st.append(({"op": "zbad"}, "zz.str %s %s" % (d, r.choice(["12x", "-", "x1", "1-2", "--7", "0y", "99999999999999999999z", "1.5", "@"]))))
            continue
        if k < 0.14:
            v = rnd_int(r)
            if r.random() < 0.3:      # the value that brings x + v next to a word boundary
                v = r.choice([1, -1]) * 2**r.choice([31, 63, 64]) + r.randint(-2, 2) - vx
            st.append(const(r, d, v)); reg[d] = v
        elif k < 0.50:
            op = r.choice(["add", "sub", "mul", "quo", "rem", "gcd", "lcm", "fdivq", "fdivr"])
            if op in ("mul", "lcm") and abs(vx * vy) > LIMIT:
                op = "sub"
            inpl = op in ("add", "sub", "mul", "quo", "rem") and r.random() < 0.5
            if inpl:
                d = x
                st.append(({"op": "zbin", "k": op, "d": d, "x": d, "y": y}, "zz.i%s %s %s" % (op, d, y)))
            else:
                if op in ("fdivq", "fdivr"):
                    need(d); vx, vy = reg[x], reg[y]
                st.append(({"op": "zbin", "k": op, "d": d, "x": x, "y": y}, "zz.%s %s %s %s" % (op, d, x, y)))
            if op in ("quo", "rem", "fdivq", "fdivr") and vy == 0:
                if d not in reg:
                    reg.pop(d, None)
                continue
            reg[d] = {"add": lambda: vx + vy, "sub": lambda: vx - vy, "mul": lambda: vx * vy, "quo": lambda: tdiv(vx, vy),
                      "rem": lambda: vx - vy * tdiv(vx, vy), "gcd": lambda: gcd(vx, vy),
                      "lcm": lambda: 0 if vx == 0 or vy == 0 else abs(vx * vy) // gcd(vx, vy),
                      "fdivq": lambda: vx // vy, "fdivr": lambda: vx % vy}[op]()
        elif k < 0.64:
            op = r.choice(["neg", "abs", "pow", "shl", "shr", "shl", "shr", "zero"])
            n = 0
            if op == "pow":
                n = r.choice([0, 1, 2, 2, 3, 5])
                if abs(vx)**n > LIMIT:
                    n = 1
                cmd = "zz.pow %s %s %d" % (d, x, n); v = vx**n
            elif op in ("shl", "shr"):
                n = r.choice([0, 1, 2, 31, 32, 61, 62, 63, 64, 65, 100, r.randint(0, 130)])
                if op == "shl" and abs(vx) << n > LIMIT:
                    op = "shr"
                v = vx << n if op == "shl" else vx >> n
                f = r.random()
                if f < 0.34:
                    d = x; cmd = "zz.i%s %s %d" % (op, d, n)
                elif f < 0.67:
                    cmd = "zz.%s %s %s %d" % (op, d, x, n)
                else:
                    cmd = "zz.m%s %s %s %d" % (op, d, x, n)
            elif op == "zero":
                need(d); d = x; cmd = "zz.setzero %s" % d; v = 0
            else:
                cmd = "zz.%s %s %s" % (op, d, x); v = -vx if op == "neg" else abs(vx)
            st.append(({"op": "zun", "k": op, "d": d, "x": x, "n": n}, cmd)); reg[d] = v
        elif k < 0.74:
            op = r.choice(["addmul", "submul"]); need(d)
            vx, vy = reg[x], reg[y]
            if abs(vx * vy) > LIMIT:
                continue
            if r.random() < 0.3:          # cancellation / landing near the boundary
                t = r.choice([0, 2**63, -2**63, 2**63 - 1, 2**64, r.randint(-3, 3)])
                v = t - vx * vy if op == "addmul" else t + vx * vy
                if d not in (x, y):
                    st.append(const(r, d, v)); reg[d] = v
            st.append(({"op": "z" + op, "d": d, "x": x, "y": y}, "zz.%s%s %s %s %s" % (r.choice(["", "t"]), op, d, x, y)))
            reg[d] = reg[d] + vx * vy if op == "addmul" else reg[d] - vx * vy
        elif k < 0.86:
            op = r.choice(["copy", "ctor", "asg", "move", "mctor", "swap", "swap2"])
            if op.startswith("swap"):
                st.append(({"op": "swap", "x": x, "y": y}, "zz.swap %s %s%s" % (x, y, " f" if op == "swap2" else "")))
                reg[x], reg[y] = vy, vx
            elif op in ("move", "mctor"):
                if op == "mctor" and d == x:
                    continue
                st.append(({"op": "move", "d": d, "x": x}, "zz.%s %s %s" % (op, d, x)))
                if d != x:
                    del reg[x]
                reg[d] = vx
            else:
                st.append(({"op": "copy", "d": d, "x": x}, "zz.%s %s %s" % (op, d, x))); reg[d] = vx
        elif k < 0.90:
            st.append(({"op": "zcmp", "x": x, "y": y}, "zz.cmp %s %s" % (x, y)))
        elif k < 0.93:
            st.append(({"op": "zquery", "x": x}, "zz.query %s" % x))
        elif k < 0.95:
            m = r.choice([1, 2, 3, 7, 2**32, 2**63, 2**63 + 1, 2**64 - 1, 2**64 - 59, r.getrandbits(64) | 1])
            st.append(({"op": "zfdivui", "x": x, "m": J(m)}, "zz.fdivui %s %d" % (x, m)))
        elif k < 0.96:
            if -2**63 <= vx < 2**63:
                st.append(({"op": "zgetsi", "x": x}, "zz.getsi %s" % x))
        elif k < 0.98:
            need(d); e = r.choice([n for n in names if n != d]); need(e); vx, vy = reg[x], reg[y]
            if {d, e} & {x, y}:
                continue
            st.append(({"op": "zfdivqr", "d": d, "e": e, "x": x, "y": y}, "zz.fdivqr %s %s %s %s" % (d, e, x, y)))
            if vy:
                reg[d], reg[e] = vx // vy, vx % vy
        else:
            if abs(vy) > 1 and d not in (x, y):
                st.append(({"op": "zinvert", "d": d, "x": x, "y": y}, "zz.invert %s %s %s" % (d, x, y)))
                if gcd(vx, vy) == 1:
                    reg[d] = pow(vx, -1, abs(vy))
    return Case(tag, st)


def zz_pairs(r, pairs, tag):
    """every operation on each operand pair, functional and in place"""
    out = []
    for v, w in pairs:
        st = [const(r, "x", v), const(r, "y", w)]
        for op in ("add", "sub", "mul", "gcd", "lcm", "quo", "rem"):
            st.append(({"op": "zbin", "k": op, "d": "d", "x": "x", "y": "y"}, "zz.%s d x y" % op))
        for op in ("fdivq", "fdivr"):
            if w:
                st.append(({"op": "zbin", "k": op, "d": "d", "x": "x", "y": "y"}, "zz.%s d x y" % op))
        st.append(({"op": "zcmp", "x": "x", "y": "y"}, "zz.cmp x y"))
        st.append(({"op": "zcmp", "x": "y", "y": "x"}, "zz.cmp y x"))
        for op in ("add", "sub", "mul", "quo", "rem"):
            if w == 0 and op in ("quo", "rem"):
                continue
            st.append(({"op": "copy", "d": "d", "x": "x"}, "zz.asg d x"))
            st.append(({"op": "zbin", "k": op, "d": "d", "x": "d", "y": "y"}, "zz.i%s d y" % op))
            st.append(({"op": "copy", "d": "d", "x": "y"}, "zz.asg d y"))
            if v == 0 and op in ("quo", "rem"):
                continue
            st.append(({"op": "zbin", "k": op, "d": "d", "x": "d", "y": "x"}, "zz.i%s d x" % op))
        for op in ("addmul", "submul"):
            st.append(({"op": "copy", "d": "d", "x": "x"}, "zz.asg d x"))
            st.append(({"op": "z" + op, "d": "d", "x": "y", "y": "y"}, "zz.%s d y y" % op))
            st.append(({"op": "z" + op, "d": "d", "x": "d", "y": "x"}, "zz.%s d d x" % op))
        out.append(Case(tag + "#%d,%d" % (v, w), st))
    return out


def zz_unary(r, vals):
    out = []
    for v in vals:
        st = [const(r, "x", v), ({"op": "zquery", "x": "x"}, "zz.query x")]
        if -2**63 <= v < 2**63:
            st.append(({"op": "zgetsi", "x": "x"}, "zz.getsi x"))
        for n in (0, 1, 2, 31, 32, 62, 63, 64, 65, 127, 128):
            for op in ("shl", "shr"):
                st.append(({"op": "zun", "k": op, "d": "d", "x": "x", "n": n}, "zz.%s d x %d" % (op, n)))
                st.append(({"op": "zun", "k": op, "d": "d", "x": "x", "n": n}, "zz.m%s d x %d" % (op, n)))
                st.append(({"op": "copy", "d": "d", "x": "x"}, "zz.asg d x"))
                st.append(({"op": "zun", "k": op, "d": "d", "x": "d", "n": n}, "zz.i%s d %d" % (op, n)))
        for op in ("neg", "abs"):
            st.append(({"op": "zun", "k": op, "d": "d", "x": "x", "n": 0}, "zz.%s d x" % op))
            st.append(({"op": "zun", "k": op, "d": "d", "x": "d", "n": 0}, "zz.%s d d" % op))
        for n in (0, 1, 2, 3, 7):
            st.append(({"op": "zun", "k": "pow", "d": "d", "x": "x", "n": n}, "zz.pow d x %d" % n))
        for op in ("add", "sub", "mul", "quo", "rem"):
            if v == 0 and op in ("quo", "rem"):
                continue
            st.append(({"op": "copy", "d": "d", "x": "x"}, "zz.asg d x"))
            st.append(({"op": "zbin", "k": op, "d": "d", "x": "d", "y": "d"}, "zz.i%s d d" % op))
        for op in ("addmul", "submul"):
            st.append(({"op": "copy", "d": "d", "x": "x"}, "zz.asg d x"))
            st.append(({"op": "z" + op, "d": "d", "x": "d", "y": "d"}, "zz.%s d d d" % op))
        for m in (1, 2, 3, 2**32 + 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 59, 2**64 - 1):
            st.append(({"op": "zfdivui", "x": "x", "m": J(m)}, "zz.fdivui x %d" % m))
        out.append(Case("unary#%d" % v, st))
    # every construction route for the same value
    for v in vals:
        st = []
        for i, c in enumerate(["zz.str", "zz.sstr", "zz.mpz"] + ["zz.i", "zz.seti"]):
            if c in ("zz.i", "zz.seti"):
                for k, lo, hi in (("int", -2**31, 2**31 - 1), ("uint", 0, 2**32 - 1), ("long", -2**63, I64MAX), ("ulong", 0, 2**64 - 1),
                                  ("ll", -2**63, I64MAX), ("ull", 0, 2**64 - 1)):
                    if lo <= v <= hi:
                        st.append(({"op": "const", "d": "c", "v": J(v)}, "%s c %s %d" % (c, k, v)))
                        st.append(({"op": "zcmp", "x": "c", "y": "k0"}, "zz.cmp c k0"))
            else:
                st.append(({"op": "const", "d": "k%d" % i, "v": J(v)}, "%s k%d %d" % (c, i, v)))
                st.append(({"op": "zcmp", "x": "k0", "y": "k%d" % i}, "zz.cmp k0 k%d" % i))
        # assignment over an object that already holds a word / a bignum
        for w in (5, 2**70, -2**63):
            st.append(({"op": "const", "d": "c", "v": J(w)}, "zz.str c %d" % w))
            st.append(({"op": "copy", "d": "c", "x": "k0"}, "zz.asg c k0"))
            st.append(({"op": "const", "d": "c", "v": J(w)}, "zz.str c %d" % w))
            st.append(({"op": "const", "d": "c", "v": J(v)}, "zz.sstr c %d" % v))
            st.append(({"op": "const", "d": "m", "v": J(v)}, "zz.str m %d" % v))
            st.append(({"op": "const", "d": "c", "v": J(w)}, "zz.str c %d" % w))
            st.append(({"op": "move", "d": "c", "x": "m"}, "zz.move c m"))
        out.append(Case("construct#%d" % v, st))
    return out


# ------------------------------------------------------------------------- QQ --------
def qconst(r, n, f):
    """an arbitrary, usually non-reduced, writing of the fraction"""
    k = r.choice([1, -1, 2, 3, 6, -4, 2**32, r.randint(1, 10**6)])
    a, b = f.numerator * k, f.denominator * k
    c = r.random()
    if c < 0.3 and f.denominator == 1 and -2**63 <= f.numerator < 2**63:
        v = f.numerator
        if r.random() < 0.5:
            return [({"op": "qconst", "d": n, "v": [J(v), J(1)]}, "qq.seti %s %d" % (n, v))]
        kind = "int" if -2**31 <= v < 2**31 and r.random() < 0.5 else r.choice(["long", "ll"])
        return [({"op": "qconst", "d": n, "v": [J(v), J(1)]}, "qq.i %s %s %d" % (n, kind, v))]
    if c < 0.5:
        pre = []
        if r.random() < .1:
            pre = [({"op": "qconst", "d": n, "v": [J(a), J(0)]}, "qq.sstr %s %d/0" % (n, a))]
        if r.random() < .5:
            return pre + [({"op": "qconst", "d": n, "v": [J(a), J(b)]}, "qq.sstr %s %d/%d" % (n, a, b))]
        return pre + [({"op": "qconst", "d": n, "v": [J(f.numerator), J(f.denominator)]},
                 "qq.sstr %s %s" % (n, "%d/%d" % (f.numerator, f.denominator) if f.denominator != 1 or r.random() < .5 else f.numerator))]
    if c < 0.65 and -2**63 <= a < 2**63 and -2**63 <= b < 2**63:
        return [({"op": "qconst", "d": n, "v": [J(a), J(b)]}, "qq.ll %s %d %d" % (n, a, b))]
    st = [const(r, "zn", a), const(r, "zd", b)]
    if b == 1 and c < 0.8:
        return st + [({"op": "qzz", "d": n, "x": "zn"}, "qq.zz %s zn" % n)]
    return st + [({"op": "qmk", "d": n, "x": "zn", "y": "zd"}, r.choice(["qq.mk", "qq.divzz"]) + " %s zn zd" % n)]


def rnd_q(r):
    n, d = rnd_int(r), 0
    while d == 0:
        d = rnd_int(r, r.choice([2, 5, 31, 63, 64])) if r.random() < 0.7 else r.choice([1, 2, 3, 6, 12])
    if r.random() < 0.2:
        return Fraction(n)
    return Fraction(n, d)


def qq_history(r, tag, length, nreg=4):
    names = "pqrs"[:nreg]
    reg, st = {}, []

    def need(n):
        if n not in reg:
            f = rnd_q(r); st.extend(qconst(r, n, f)); reg[n] = f
    for _ in range(length):
        d, x, y = (r.choice(names) for _ in range(3))
        need(x); need(y)
        vx, vy = reg[x], reg[y]
        k = r.random()
        if max(abs(vx.numerator), vx.denominator) > 2**900:
            f = rnd_q(r); st.extend(qconst(r, x, f)); reg[x] = f
            continue
        if k < 0.12:
            f = rnd_q(r)
            if r.random() < 0.4:
                f = r.choice([-vx, vx + 1, 1 / vx if vx else Fraction(0), vx])
            st.extend(qconst(r, d, f)); reg[d] = f
        elif k < 0.55:
            op = r.choice(["add", "sub", "mul", "quo"])
            if r.random() < 0.4:
                d = x
                st.append(({"op": "qbin", "k": op, "d": d, "x": d, "y": y}, "qq.i%s %s %s" % (op, d, y)))
            else:
                st.append(({"op": "qbin", "k": op, "d": d, "x": x, "y": y}, "qq.%s %s %s %s" % (op, d, x, y)))
            if op == "quo" and vy == 0:
                continue
            reg[d] = vx + vy if op == "add" else vx - vy if op == "sub" else vx * vy if op == "mul" else vx / vy
        elif k < 0.70:
            op = r.choice(["neg", "abs", "pow", "canon"]); n = 0
            if op == "pow":
                n = r.choice([0, 1, 2, 3, 4]); cmd = "qq.pow %s %s %d" % (d, x, n); v = vx**n
            elif op == "canon":
                d = x; cmd = "qq.canon %s" % d; v = vx
            else:
                cmd = "qq.%s %s %s" % (op, d, x); v = -vx if op == "neg" else abs(vx)
            st.append(({"op": "qun", "k": op, "d": d, "x": x, "n": n}, cmd)); reg[d] = v
        elif k < 0.80:
            op = r.choice(["asg", "copy", "move", "swap", "swap2"])
            if op.startswith("swap"):
                st.append(({"op": "swap", "x": x, "y": y}, "qq.swap %s %s%s" % (x, y, " f" if op == "swap2" else "")))
                reg[x], reg[y] = vy, vx
            elif op == "move":
                st.append(({"op": "move", "d": d, "x": x}, "qq.move %s %s" % (d, x)))
                if d != x:
                    del reg[x]
                reg[d] = vx
            else:
                st.append(({"op": "copy", "d": d, "x": x}, "qq.%s %s %s" % (op, d, x))); reg[d] = vx
        elif k < 0.90:
            st.append(({"op": "qcmp", "x": x, "y": y}, "qq.cmp %s %s" % (x, y)))
        elif k < 0.97:
            st.append(({"op": "qquery", "x": x}, "qq.query %s" % x))
        else:                      # zero denominators
            st += [const(r, "zn", rnd_int(r)), const(r, "zd", 0),
                   ({"op": "qmk", "d": d, "x": "zn", "y": "zd"}, "qq.mk %s zn zd" % d)]
            a = r.randint(-5, 5)
            if r.random() < .5:
                st.append(({"op": "qconst", "d": d, "v": [J(a), J(0)]}, "qq.ll %s %d 0" % (d, a)))
    return Case(tag, st)


def qq_grid():
    """every way of making a fraction from two boundary integers"""
    L = [0, 1, -1, 2, -2, 3, 6, -6, 2**31, -2**31, 2**32, -2**32, 2**62, -2**62, I64MAX, -I64MAX, -2**63]
    out = []
    for a in L:
        st = [({"op": "const", "d": "zn", "v": J(a)}, "zz.str zn %d" % a)]
        for b in L:
            if b:
                st += [({"op": "qconst", "d": "x", "v": [J(a), J(b)]}, "qq.ll x %d %d" % (a, b)),
                       ({"op": "const", "d": "zd", "v": J(b)}, "zz.str zd %d" % b),
                       ({"op": "qmk", "d": "y", "x": "zn", "y": "zd"}, "qq.mk y zn zd"),
                       ({"op": "qcmp", "x": "x", "y": "y"}, "qq.cmp x y"),
                       ({"op": "qquery", "x": "x"}, "qq.query x")]
        out.append(Case("qgrid#%d" % a, st))
    return out


def qq_pairs(r, n):
    qs = [Fraction(a, b) for a in (0, 1, -1, 2, -2, 3, 6, 2**31, 2**63 - 1, -2**63, 2**64, 10**20) for b in (1, 2, 3, 6, 2**32, 2**63 + 29)]
    qs = sorted(set(qs))
    out = []
    for i in range(n):
        v, w = r.choice(qs), r.choice(qs)
        st = qconst(r, "x", v) + qconst(r, "y", w)
        for op in ("add", "sub", "mul", "quo"):
            st.append(({"op": "qbin", "k": op, "d": "d", "x": "x", "y": "y"}, "qq.%s d x y" % op))
            if op != "quo" or w:
                st.append(({"op": "copy", "d": "e", "x": "x"}, "qq.asg e x"))
                st.append(({"op": "qbin", "k": op, "d": "e", "x": "e", "y": "y"}, "qq.i%s e y" % op))
                st.append(({"op": "qcmp", "x": "d", "y": "e"}, "qq.cmp d e"))
                st.append(({"op": "copy", "d": "e", "x": "x"}, "qq.asg e x"))
                if op != "quo" or v:
                    st.append(({"op": "qbin", "k": op, "d": "e", "x": "e", "y": "e"}, "qq.i%s e e" % op))
        st.append(({"op": "qcmp", "x": "x", "y": "y"}, "qq.cmp x y"))
        st.append(({"op": "qquery", "x": "x"}, "qq.query x"))
        out.append(Case("qpair#%s,%s" % (v, w), st))
    return out


# ------------------------------------------------------------------------- Zp --------
def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prev_prime(n):
    n -= 1
    while not is_prime(n):
        n -= 1
    return n


def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n


PRIMES = [2, 3, 5, 7, 11, 13, 101, 257, 65521, 65537, 2147483647, 4294967291, 4294967311] + \
    [prev_prime(2**k) for k in (32, 33, 40, 48, 61, 62, 63, 64)] + [next_prime(2**k) for k in (31, 32, 47, 61, 62, 63)] + \
    [prev_prime(prev_prime(2**64)), prev_prime(3 * 2**62), prev_prime(10**18), prev_prime(10**19)]


def zp_operand(r, p):
    c = r.random()
    if c < 0.35:
        v = p - 1 - r.choice([0, 1, 2, r.randint(0, min(p - 1, 10**6))]) if p > 3 else r.randint(0, p - 1)
    elif c < 0.5:
        v = r.choice([0, 1, 2, p // 2, (p + 1) // 2, p, p + 1, 2 * p, 2 * p - 1, -1, -p, -p - 1, 1 - p])
    elif c < 0.65:
        v = r.choice([2**32, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1, -2**63, 2**64, -2**64, 2**128 - 1, 10**40, -10**40])
    else:
        v = r.getrandbits(r.choice([8, 31, 32, 48, 63, 64, 64, 64, 100])) * r.choice([1, 1, 1, -1])
    ks = ["zz", "asgz"]
    if 0 <= v < 2**64:
        ks += ["u"] * 2
    if -2**63 <= v < 2**63:
        ks += ["i", "asgi"]
    if -2**31 <= v < 2**31:
        ks += ["int"]
    return v, r.choice(ks)


def zp_cases(r, n, primes):
    out = []
    for i in range(n):
        st = []
        for _ in range(10):
            p = r.choice(primes)
            x, kx = zp_operand(r, p)
            y, ky = zp_operand(r, p)
            m = r.choice([0, 1, -1, 2, 2**31, -2**63, 2**63 - 1, r.randint(-2**63, 2**63 - 1), r.randint(-100, 100)])
            e = r.choice([0, 1, 2, 3, -1, p - 1 if p < 2**62 else 5, r.randint(0, 2**20), r.randint(0, 2**62), 2**62, 2**31])
            st.append(({"op": "zpall", "p": J(p), "x": J(x), "y": J(y), "n": J(m), "e": J(e)},
                       "zp.all %d %s %d %s %d %d %d" % (p, kx, x, ky, y, m, e)))
        out.append(Case("zp#%d" % i, st))
    return out


def zp_exhaustive(primes):
    out = []
    for p in primes:
        for x in range(-1, p + 1):
            st = []
            for y in range(p):
                st.append(({"op": "zpall", "p": J(p), "x": J(x), "y": J(y), "n": J(y - p), "e": J(y)}, "zp.all %d i %d int %d %d %d" % (p, x, y, y - p, y)))
            out.append(Case("zp-all#%d,%d" % (p, x), st))
    return out


def cases(prop, tier, seed):
    r = random.Random("%s-%d" % (prop, seed))
    q = tier == "quick"
    out = []
    if prop == "C01":
        for i in range(1200 if q else 6000):
            out.append(zz_history(r, "zz-history#%d" % i, r.choice([15, 40, 60])))
        pairs = [(a, b) for a in BOUNDARY for b in BOUNDARY]
        if q:
            core = [b for b in BOUNDARY if abs(b) in (0, 1, 2, 2**31, 2**32, 2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**64, 2**64 - 1, 2**64 + 1, 3037000500)]
            pairs = [(a, b) for a in core for b in core] + r.sample(pairs, 1000)
        out += zz_pairs(r, pairs, "zz-pair")
        out += zz_unary(r, BOUNDARY if not q else r.sample(BOUNDARY, 60) + [2**63, -2**63, 2**63 - 1, -2**63 - 1, 2**64, 2**64 - 1])
    elif prop == "C02":
        for i in range(1500 if q else 6000):
            out.append(qq_history(r, "qq-history#%d" % i, r.choice([15, 40])))
        out += qq_grid()
        out += qq_pairs(r, 1200 if q else 3000)
    else:
        out += zp_cases(r, 5000 if q else 20000, PRIMES)
        out += zp_exhaustive([2, 3, 5, 7] if q else [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31])
        ps = []
        for _ in range(200 if q else 800):
            b = r.choice([8, 16, 31, 32, 33, 47, 62, 63, 64, 64, 64])
            ps.append(prev_prime(r.getrandbits(b) | 1 << (b - 1)))
        out += zp_cases(r, 2500 if q else 8000, ps)
    return out


def check(prop, tier, seed, wd, kf):
    from . import models
    return area.run(prop, wd, kf, "num", "TraceNum", cases(prop, tier, seed), limit=30, models=[models.laws("BigInt")] if prop == "C01" else [],
                    rule="a case is one history of calls over shared registers (or one prime/operand block); operands concentrate on word-size and "
                         "base boundaries, cancellation and aliasing; distinct = different command sequences")
