"""Common shape of an area's check: conformance traces plus TLC design models."""
import os, random
from . import core


def run(prop, wd, kf, driver, module, cases, models=(), limit=60, flags=("-O1", "-DDEBUG"), rule="", nontrivial=None,
        weight=None, assumptions=(), cfg="Trace.cfg", extra=None, patience=None):
    known = {e["key"]: e for e in kf if "key" in e}
    seen, uniq = set(), []
    for c in cases:
        if c.key not in seen:
            seen.add(c.key)
            uniq.append(c)
    con = core.Conformance(prop, driver, module, cfg, wd, flags=flags, limit=limit, weight=weight, known=known, patience=patience)
    con.run(uniq)
    states, trans = con.states, con.transitions
    mstates = mtrans = 0
    violations = list(con.violations)
    for m in models:
        s, t, v = m(wd, prop)
        mstates += s
        mtrans += t
        violations += v
    ops = {}
    for c in uniq:
        for e, _ in c.steps:
            k = e["op"] + ("." + e["k"] if isinstance(e.get("k"), str) else "")
            ops[k] = ops.get(k, 0) + 1
    tags = {}
    for c in uniq:
        t = c.tag.split("#")[0]
        tags[t] = tags.get(t, 0) + 1
    samples = []
    for c in uniq[:: max(1, len(uniq) // 4)][:4]:
        samples.append(dict(tag=c.tag, commands=[cmd[:200] for _, cmd in c.steps[:6]]))
    cov = dict(states=states + mstates, transitions=trans + mtrans, traces_validated_against_impl=con.traces,
               samples=samples, cases=len(uniq), trace_lines=con.lines, model_states=mstates,
               evaluations=con.lines, distinct_nontrivial=len(uniq), rule=rule, operations=ops, case_kinds=tags)
    if con.slow:
        cov["slow_cases"] = con.slow
    if extra:
        cov.update(extra)
    ks = [known[c.key] for c in con.known_seen]
    return dict(coverage=cov, violations=violations, known_seen=ks, assumptions=list(assumptions))
