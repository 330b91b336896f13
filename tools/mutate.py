#!/usr/bin/env python3
"""mutate.py <property> <count> <seed> <slot> <file[:from-to]>...: random one-token changes of /repo/clpoly files in a scratch copy,
each judged by the property's quick check (development aid: the survivors show what a check does not see)."""
import os, random, re, subprocess, sys
prop, count, seed, slot = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
SB = "/tmp/sb/mut-" + slot
r = random.Random(seed)


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


sh("rm -rf %s %s-v; git clone -q /repo %s; rsync -a --exclude build --exclude .git --exclude seeded /verif/ %s-v || cp -a /verif %s-v" % (SB, SB, SB, SB, SB))
OPS = [(r"(?<![<>\-=!])<(?![<=])", ["<=", ">"]), (r"<=", ["<", "=="]), (r"(?<![<>\-=])>(?![>=])", [">=", "<"]), (r">=", [">", "=="]),
       (r"==", ["!=", "<="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![+\w] )\+(?![+=])", ["-"]), (r"(?<![-(,=<>] )(?<![-(,=<>])-(?![-=>])", ["+"]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\*(?= ?[a-z(])", ["+"]), (r"\.front\(\)", [".back()"]), (r"\.back\(\)", [".front()"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"])]
cands = []
for spec in sys.argv[5:]:
    f, _, rng = spec.partition(":")
    lines = open(SB + "/clpoly/" + f).read().split("\n")
    a, b = (int(x) for x in rng.split("-")) if rng else (1, len(lines))
    com = False
    for i in range(a - 1, min(b, len(lines))):
        t = lines[i]
        s = t.strip()
        if "/*" in s:
            com = "*/" not in s
            continue
        if com:
            com = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "assert", "std::cout", "using", "static_assert", "public", "private", "friend", "typedef", "class", "struct")):
            continue
        code = t.split("//")[0]
        head = bool(re.match(r"\s*(if|while|for|else if|return|\w+ \w+ ?=|[\w\.\[\]>-]+ ?[-+*]?=)", code))
        for rx, reps in OPS:
            if rx[0] in "(<>" and ("<" in rx or ">" in rx) and not re.match(r"\s*(if|while|for|else if|return|.*\?)", code):
                continue
            if ("<" in rx or ">" in rx) and re.search(r"std::(vector|pair|map|set|is_|function|enable|unique|list|tuple)|template|_<|upolynomial_|polynomial_<|basic_|operator", code):
                continue
            for m in re.finditer(rx, code):
                for rep in reps:
                    cands.append((f, i, t, t[:m.start()] + rep + t[m.end():]))
        if re.match(r"\s*(?!return|else|case|default|goto|using)[\w\.\[\]\->:\*\(\)]+ ?(\(|[-+*/]?=|\+\+|--)[^{}]*;\s*$", code) and "auto" not in code:
            cands.append((f, i, t, re.sub(r"\S.*", ";", t, count=1)))
        if re.match(r"\s*(break|continue);\s*$", code):
            cands.append((f, i, t, re.sub(r"\S.*", ";", t, count=1)))
        m = re.match(r"(\s*(?:else )?if ?\()(.*)(\)\s*\{?)$", code)
        if m and code.count("(") == code.count(")"):
            cands.append((f, i, t, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
r.shuffle(cands)
print(prop, "candidates", len(cands), flush=True)
seen, done = {}, 0
for f, i, old, new in cands:
    if done >= count:
        break
    if seen.get((f, i), 0) >= 2 or old == new:
        continue
    p = SB + "/clpoly/" + f
    src = open(p).read()
    lines = src.split("\n")
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    try:
        c = sh("cd %s && for s in clpoly/*.cc; do case $s in *interval*) ;; *) g++ -fsyntax-only -w -I. $s || exit 1;; esac; done" % SB) if f.endswith(".cc") else sh("cd %s && echo '#include <clpoly/clpoly.hh>' | g++ -fsyntax-only -w -I. -x c++ -" % SB)
        if c.returncode:
            continue
        done += 1
        seen[(f, i)] = seen.get((f, i), 0) + 1
        e = sh("cd %s-v && rm -rf build/tmp && VERIF_DEV_REPO=%s VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE=/tmp/sb timeout 1200 nice python3 check.py %s" % (SB, SB, prop))
        w = {0: "SURVIVED", 1: "caught"}.get(e.returncode, "exit %d" % e.returncode)
        print("%s %s:%d  %s   ->   %s" % (w, f, i + 1, old.strip()[:110], new.strip()[:110]), flush=True)
    finally:
        open(p, "w").write(src)
