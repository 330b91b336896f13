"""Machinery shared by all checks: build the drivers from /repo's working tree, execute
command histories on them, and have TLC decide whether the recorded history is a behaviour
of the specification."""
import threading
import resource
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")     # another tree only while developing the checks
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUDGET = 200 if os.environ.get("VERIF_TIER", "quick") == "quick" else 6000    # seconds for the histories of one shard
NPROC = 8
LIBSRC = ["variable", "polynomial_gcd", "upolynomial", "associatedgraph", "realroot"]


class Infra(Exception):
    """The check itself could not run (never a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ big integers -----
def J(n):
    """Python int -> the specification's integer [sign, base-10000 digits]."""
    if n == 0:
        return [0]
    r = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, d = divmod(n, 10000)
        r.append(d)
    return r


def unJ(v):
    n = 0
    for d in reversed(v[1:]):
        n = n * 10000 + d
    return -n if v[0] < 0 else n


# ------------------------------------------------------------------------- build -----
def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _compile(cmd, out):
    tmp = out + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise Infra("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    os.replace(tmp, out)
    return out


def build_java():
    d = os.path.join(BUILD, "java")
    src = glob.glob(os.path.join(SPEC, "java", "*.java"))
    key = _digest(src)
    mark = os.path.join(d, "stamp-" + key)
    if not os.path.exists(mark):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLAJARS, "-d", d] + src, capture_output=True, text=True)
        if r.returncode:
            raise Infra("javac: " + r.stderr)
        open(mark, "w").close()
    return d


def build_driver(name, flags=("-O1", "-DDEBUG")):
    """Compile /repo's library sources and drivers/<name>.cc; cached by content."""
    hdr = [p for p in glob.glob(REPO + "/clpoly/**/*", recursive=True) if os.path.isfile(p)]
    fl = list(flags)
    lk = _digest(hdr, " ".join(fl))
    hh = glob.glob(os.path.join(VERIF, "drivers", "*.hh"))
    tus = [os.path.join(VERIF, "drivers", name + ".cc")] + sorted(glob.glob(os.path.join(VERIF, "drivers", name + "_*.cc")))
    dk = _digest(hdr + tus + hh, " ".join(fl))
    san = any(f.startswith("-fsanitize") for f in fl)
    exe = os.path.join(BUILD, "drv-%s-%s%s" % (name, "san-" if san else "", dk))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    objs = [os.path.join(BUILD, "lib-%s-%s.o" % (s, lk)) for s in LIBSRC]
    tobjs = [os.path.join(BUILD, "tu-%s-%s.o" % (os.path.basename(t)[:-3], _digest(hdr + hh + [t], " ".join(fl)))) for t in tus]
    jobs = [(t, o) for t, o in zip(tus, tobjs) if not os.path.exists(o)]
    jobs += [(os.path.join(REPO, "clpoly", s + ".cc"), o) for s, o in zip(LIBSRC, objs) if not os.path.exists(o)]
    inc = ["-I" + REPO, "-I" + os.path.join(VERIF, "drivers")]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda so: _compile(["g++", "-w", "-c"] + fl + inc + [so[0]], so[1]), jobs))
    _compile(["g++", "-w"] + [f for f in fl if f.startswith("-fsanitize")] + tobjs + objs + ["-lgmpxx", "-lgmp", "-lpthread"], exe)
    return exe


# ------------------------------------------------------------------------- cases -----
class Case:
    """One history.  steps: list of (event dict for the specification, driver command)."""
    __slots__ = ("tag", "seed", "steps", "key")

    def __init__(self, tag, steps, seed=1):
        self.tag, self.steps, self.seed = tag, steps, seed
        self.key = hashlib.sha256(repr((seed, [c for _, c in steps])).encode()).hexdigest()[:16]


def _mem_limit():
    resource.setrlimit(resource.RLIMIT_AS, (2500 << 20, 2500 << 20))


def run_driver(exe, cases, workdir, name, limit=60):
    """Execute the cases; returns per case a list of (status, json) (possibly shorter)."""
    san = "-san-" in os.path.basename(exe)     # the sanitizer reserves address space of its own
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=2500:print_legend=0:print_full_thread_history=0", UBSAN_OPTIONS="halt_on_error=1") if san else None
    res = [[] for _ in cases]
    start = 0
    attempts = hangs = 0
    deadline = time.time() + (BUDGET if len(cases) > 1 else 10**6)
    while start < len(cases):
        attempts += 1
        path = os.path.join(workdir, "%s.%d.cmd" % (name, attempts))
        with open(path, "w") as f:
            for ci in range(start, len(cases)):
                f.write("%d:c case %d\n" % (ci, cases[ci].seed))
                for si, (_, cmd) in enumerate(cases[ci].steps):
                    f.write("%d:%d %s\n" % (ci, si, cmd))
        outp = path[:-4] + ".out"
        with open(outp, "wb") as fo, open(outp + ".err", "wb") as fe:
            p = subprocess.Popen([exe, path, str(limit)], stdout=fo, stderr=fe, cwd=workdir, env=env, preexec_fn=None if san else _mem_limit)
            try:
                p.wait(max(1, deadline - time.time()))
                late = False
            except subprocess.TimeoutExpired:
                late = True
                p.kill()
                p.wait()
        if p.returncode == -9 and not late:
            raise Infra("driver was killed (out of memory?): " + path)
        last = (start, -1)
        ended = False
        hang = False
        with open(outp, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line == "end":
                    ended = True
                    break
                parts = line.split(" ", 2)
                if len(parts) < 3 or ":" not in parts[0]:
                    continue          # library chatter on stdout
                ci, si = parts[0].split(":")
                if not ci.isdigit():
                    continue
                ci = int(ci)
                if si == "c":
                    last = (ci, -1)
                    continue
                si = int(si)
                last = (ci, si)
                try:
                    v = json.loads(parts[2])
                except ValueError:
                    parts[1], v = "bad", parts[2][:200]
                res[ci].append((parts[1], v))
                if parts[1] == "hang":
                    hang = True
                    hangs += 1
        if ended:
            break
        if p.returncode in (2, 3, 4):
            raise Infra("driver script error: " + open(outp + ".err", errors="replace").read()[-800:])
        ci, si = last
        if late:                        # the budget of all these histories together is used up: what was seen so far has to do
            raise TooMany("budget", res, ci, True)
        if not hang:
            err = open(outp + ".err", errors="replace").read()
            k = err.find("ERROR: AddressSanitizer")
            err = err[k:k + 600] if k >= 0 else err[-300:]
            dead = "memory" if MEMORY.search(err) else "crash"
            if len(res[ci]) < len(cases[ci].steps):
                res[ci].append((dead, "process ended with %d: %s" % (p.returncode, err)))
            else:                       # died between cases: blame the next case
                ci += 1
                if ci < len(cases):
                    res[ci].append((dead, "process ended with %d: %s" % (p.returncode, err)))
        start = ci + 1
        if attempts > 40 or hangs >= 2:
            raise TooMany("driver died %d times" % attempts, res, start)
    return res


# a report that names a misuse of memory (not: out of memory, stack overflow, assertion of the library)
MEMORY = re.compile(r"AddressSanitizer: (SEGV|BUS|FPE|heap|stack-buffer|stack-use|global|dynamic-stack|container|use-after|attempting|alloc-dealloc|new-delete|negative-size|memcpy-param|bad-free|unknown-crash)"
                    r"|/c\+\+/[^\n]*Assertion '")


class TooMany(Exception):
    def __init__(self, m, res, upto, late=False):
        super().__init__(m)
        self.res, self.upto, self.late = res, upto, late


def events_of(case, results):
    ev = [{"op": "case", "tag": case.tag}]
    for (e, _), (st, r) in zip(case.steps, results):
        d = dict(e)
        d["s"] = st
        d["r"] = r if d["op"] != "call" or st in ("crash", "memory") else ""
        ev.append(d)
    return ev


# --------------------------------------------------------------------------- TLC -----
JVM = ["-Xss512m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"]


def tlc(module, cfg, env=None, args=(), timeout=600, mem="2600m", workers=1, metadir=None, java=True):
    cmd = ["java", "-Xmx" + mem] + JVM + ["-cp", (build_java() + ":" if java else "") + TLAJARS,
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + metadir, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", metadir, "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=metadir, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as t:
        o = t.stdout.decode(errors="replace") if t.stdout else ""
        return 124, o


class Late(Infra):
    pass


def tlc_trace(module, cfg, events, workdir, name, timeout=800):
    """Returns (#accepted lines, states, error text or None)."""
    path = os.path.join(workdir, name + ".ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    md = os.path.join(workdir, name + ".meta")
    os.makedirs(md, exist_ok=True)
    rc, out = tlc(module, cfg, env={"TRACE": path}, timeout=timeout, metadir=md, args=["-deadlock"])
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'<<"ACCEPTED-LINES", (\d+), (\d+)>>', out)
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    states = (int(st.group(1)), int(st.group(2))) if st else (0, 0)
    if rc == 124:
        raise Late("TLC timed out on %s" % path)
    if "bad ghost" in out:                      # a certificate of the generator's is wrong: never a verdict on the code
        raise Infra("generator: %s" % out[-1500:])
    if m and rc == 0:
        if int(m.group(2)) != len(events):
            raise Infra("TLC read %s lines, wrote %d" % (m.group(2), len(events)))
        os.remove(path)
        return int(m.group(1)), states, None
    if re.search(r"StackOverflow|OutOfMemory|Parsing or semantic|Could not find|TLC encountered an unexpected|Unknown operator|not found in file|config file", out) and "evaluat" not in out:
        raise Infra("TLC failed on %s:\n%s" % (path, re.sub(r"(?m)^(Parsing file|Semantic processing).*\n", "", out)[-2500:]))
    # an evaluation error: the observation lies outside the domain of the specification
    d = re.findall(r"^(?:State|STATE) (\d+):|^(?:/\\ )?l = (\d+)", out, re.M)
    ls = [int(b) for a, b in d if b]
    if "Error:" in out and ls:
        i = out.index("Error:")
        return max(ls) - 1, states, out[i:i + 1200] + "\n...\n" + out[-1200:]
    raise Infra("TLC failed (%d) on %s:\n%s" % (rc, path, re.sub(r"(?m)^(Parsing file|Semantic processing).*\n", "", out)[-2500:]))


# ------------------------------------------------------------------ conformance ------
class Conformance:
    """Runs cases of one property and collects rejections."""

    def __init__(self, prop, driver, module, cfg, workdir, flags=("-O1", "-DDEBUG"), limit=60, weight=None,
                 tlc_timeout=300 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3600, max_violations=2, known=(), patience=None):
        self.prop, self.driver, self.module, self.cfg, self.workdir = prop, driver, module, cfg, workdir
        self.flags, self.limit, self.tlc_timeout = flags, limit, tlc_timeout
        self.known = set(known)
        self.patience = patience
        self.slow = []
        self.max_violations = max_violations
        self.weight = weight or (lambda c: len(c.steps) + 1)
        self.violations = []
        self.known_seen = []
        self.cases = self.lines = self.states = self.transitions = self.traces = 0
        self.exe = None

    def run(self, cases, nshards=NPROC):
        if not cases:
            return
        self.exe = build_driver(self.driver, self.flags)
        build_java()
        shards = [[] for _ in range(min(nshards, len(cases)))]
        loads = [0] * len(shards)
        for c in sorted(cases, key=lambda c: -self.weight(c)):
            i = loads.index(min(loads))
            shards[i].append(c)
            loads[i] += self.weight(c)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(lambda t: self._shard(*t), enumerate(shards)))
        for o in outs:
            self.cases += o["cases"]
            self.lines += o["lines"]
            self.states += o["states"]
            self.transitions += o["transitions"]
            self.traces += o["traces"]
        rej = [r for o in outs for r in o["rejected"]]
        if not rej and any(o["late"] for o in outs):
            raise Infra("the histories took too long: driver limit %d s, TLC limit %d s" % (BUDGET, self.tlc_timeout))
        rej.sort(key=lambda t: len(t[0].steps))
        for case, line, why, shard in rej:
            if case.key in self.known:
                self.known_seen.append(case)
                continue
            if len(self.violations) >= self.max_violations:
                break
            if self._only_slow(case):
                self.slow.append(case.tag)
                continue
            self._confirm(case, line, why, shard)

    def _shard(self, i, cases):
        o = dict(cases=len(cases), lines=0, states=0, transitions=0, traces=0, rejected=[], late=False)
        nm = "s%d-%d" % (id(self) % 100000, i)
        try:
            results = run_driver(self.exe, cases, self.workdir, nm, self.limit)
        except TooMany as t:
            results, cases = t.res[:t.upto], cases[:t.upto]
            o["late"] = t.late
        idx = 0
        rounds = 0
        while idx < len(cases):
            rounds += 1
            ev, owner = [], []
            for ci in range(idx, len(cases)):
                es = events_of(cases[ci], results[ci])
                ev += es
                owner += [(ci, k) for k in range(len(es))]
            try:
                acc, st, err = tlc_trace(self.module, self.cfg, ev, self.workdir, nm, self.tlc_timeout)
            except Late:
                o["late"] = True
                break
            o["lines"] += min(acc, len(ev))
            o["states"] += st[1]
            o["transitions"] += st[0]
            if acc >= len(ev):
                # complete histories only: a case cut short was rejected at its last line
                o["traces"] += len(cases) - idx
                break
            ci, k = owner[acc]
            o["traces"] += ci - idx
            o["rejected"].append((cases[ci], k, err, cases[:ci + 1]))
            idx = ci + 1
            unknown = [r for r in o["rejected"] if r[0].key not in self.known]
            if len(unknown) >= 2 or rounds > 60:
                break
        for f in glob.glob(os.path.join(self.workdir, nm + ".*")):
            if os.path.isfile(f):
                os.remove(f)
        return o

    def _only_slow(self, case):
        """A case stopped by the time limit gets one run with far more time before it counts as never returning."""
        if not self.patience or self.violations:
            return False
        short = run_driver(self.exe, [case], self.workdir, "slow0", self.limit)[0]
        if not any(s == "hang" for s, _ in short):
            return False
        if len(self.slow) >= 1:
            return True                       # undecided: no time left for a second one
        res = run_driver(self.exe, [case], self.workdir, "slow", self.patience)[0]
        if any(s == "hang" for s, _ in res):
            return False
        ev = events_of(case, res)
        acc, _, _ = tlc_trace(self.module, self.cfg, ev, self.workdir, "slow", self.tlc_timeout)
        return acc >= len(ev)

    def _once(self, cases, name):
        res = run_driver(self.exe, cases, self.workdir, name, self.limit)
        ev = []
        for c, r in zip(cases, res):
            ev += events_of(c, r)
        acc, _, err = tlc_trace(self.module, self.cfg, ev, self.workdir, name, self.tlc_timeout)
        return (acc, ev, err) if acc < len(ev) else (None, ev, None)

    def _confirm(self, case, line, why, shard):
        acc, ev, err = self._once([case], "confirm")
        hist = [case]
        if acc is None:                       # needs the history before it
            acc, ev, err = self._once(shard, "confirm2")
            hist = shard
            if acc is None:
                raise Infra("rejection of case %s did not repeat" % case.tag)
        bad = ev[acc]
        k = acc - max(i for i in range(acc + 1) if ev[i]["op"] == "case")
        last = hist[sum(1 for i in range(acc + 1) if ev[i]["op"] == "case") - 1]
        context = [c for _, c in last.steps[max(0, k - 12):k]]
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (self.prop, case.key))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, driver=self.driver, module=self.module, cfg=self.cfg, flags=list(self.flags),
                           limit=self.limit, tag=case.tag, key=case.key, rejected_event=bad, commands_up_to_it=context, tlc=err,
                           cases=[dict(tag=c.tag, seed=c.seed, steps=c.steps) for c in hist]), f, indent=1)
        self.violations.append((case.tag, path, bad))


def parse_tlc_stats(out):
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return (int(st.group(1)), int(st.group(2))) if st else (0, 0)
