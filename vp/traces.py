"""Conformance: scenarios are executed by the real library, their traces validated by TLC."""
import json
import os
import random
import re
import subprocess

from . import gen
from .engine import (ROOT, CheckError, build_driver, read_ndjson, run, validate, write_ndjson)

MAXCRASH = 3
FATAL = re.compile(r"fatal error: (?!runtime: cannot allocate)|^panic: |unexpected fault address", re.M)
LIMIT_KB = 12 * 1024 * 1024


def run_driver(driver, scs, work, step=False, timeout=600):
    src, dst = os.path.join(work, "scenarios.ndjson"), os.path.join(work, "traces.ndjson")
    write_ndjson(src, scs)
    cmd = f"ulimit -v {LIMIT_KB}; exec {driver} {'-step ' if step else ''}{src} {dst}"
    p = run(["bash", "-c", cmd], timeout=timeout)
    lines = []
    if os.path.exists(dst):
        with open(dst) as f:
            text = f.read()
        lines = [json.loads(x) for x in text.split("\n")[:-1]]
        os.remove(dst)
    return p.returncode, lines, p.stdout


def execute(driver, scs, work):
    """the traces of scenarios; a scenario that kills the process ends with a "crash" event"""
    traces, crashes, i = [], 0, 0
    while i < len(scs):
        rc, lines, out = run_driver(driver, scs[i:], work)
        traces += lines
        i += len(lines)
        if rc == 0:
            break                       # all done, or given up after hangs
        if rc == 3 or not FATAL.search(out):
            raise CheckError(f"driver exited with {rc}:\n{out[-3000:]}")
        sc = scs[i]
        rc2, evs, out2 = run_driver(driver, [sc], work, step=True)
        if rc2 in (0, 3) or not evs or not FATAL.search(out2):
            raise CheckError(f"crash of the driver was not reproduced:\n{out[-3000:]}")
        n = len(evs)
        rc3, lines, out3 = run_driver(driver, [dict(sc, ops=sc["ops"][:n - 1])], work)
        if rc3 or len(lines) != 1:
            raise CheckError(f"crash of the driver at varying points:\n{out3[-3000:]}")
        ev = dict(evs[-1], r={"k": "crash", "s": FATAL.search(out2).group(0) + out2[FATAL.search(out2).end():][:200]})
        traces.append({"id": sc["id"], "ev": lines[0]["ev"] + [ev]})
        i += 1
        crashes += 1
        if crashes >= MAXCRASH:
            break
    return traces


def describe(tr, pos):
    ev = tr["ev"][pos - 1]
    if ev["op"] == "all":
        calls = "; ".join(f"{e['op']} {json.dumps({k: v for k, v in e.items() if k not in ('r', 'op', 'unsafe')})[:200]} -> "
                          f"{json.dumps(e['r'])[:200]}" for e in ev["evs"])
        return f"{tr['id']}: event {pos}, one of the calls {calls}"[:6000]
    args = {k: v for k, v in ev.items() if k not in ("r", "op")}
    return f"{tr['id']}: event {pos}, {ev['op']} {json.dumps(args)[:400]} returned {json.dumps(ev['r'])[:400]}"


KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_finding(prop, ident):
    """the description of a finding that is listed, or None"""
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m and (m[1], m[2]) == (prop, ident):
            return m[3]
    return None


def check_scenarios(ctx, scs, label, module="MetricTrace", known=None):
    """execute and validate; returns the number of violations found.  known(trace, position) is the name of the
    finding that a rejection is an instance of, or None"""
    byid = {s["id"]: s for s in scs}
    if len(byid) != len(scs):
        seen = {}
        for s in scs:
            k = seen.get(s["id"], 0)
            seen[s["id"]] = k + 1
            if k:
                s["id"] += f"#{k}"
        byid = {s["id"]: s for s in scs}
    traces = execute(ctx.driver(), scs, ctx.work)
    path = os.path.join(ctx.work, "validate.ndjson")
    write_ndjson(path, traces)
    rejected, t = validate(path, len(traces), ctx.work, module=module)
    ctx.count(t, traces=len(traces))
    for tr in traces[:1]:
        ctx.sample(tr)
    for idx, pos in rejected:
        tr = traces[idx - 1]
        ev = tr["ev"][pos - 1]
        ident = known(tr, pos) if known else None
        text = known_finding(ctx.prop, ident) if ident else None
        if text:
            ctx.known(text)
            continue
        sc = dict(byid[tr["id"]], ops=byid[tr["id"]]["ops"][:pos])
        if ev["r"].get("k") == "hang" and not confirm_hang(ctx, sc):
            raise CheckError("hang was not reproduced: " + describe(tr, pos))
        ctx.violation(describe(tr, pos), {"kind": "scenario", "module": module, "scenario": sc,
                                          "trace": dict(tr, ev=tr["ev"][:pos]), "rejected_at": pos})
        if len(ctx.violations) >= 5:
            break
    if len(traces) < len(scs) and not ctx.violations:
        raise CheckError(f"only {len(traces)} of {len(scs)} scenarios of {label} were executed")
    return len(rejected)


def confirm_hang(ctx, sc):
    try:
        trs = execute(ctx.driver(), [sc], ctx.work)
    except CheckError:
        return False
    return trs[0]["ev"][-1]["r"].get("k") == "hang"


def generated(prop, quick=3, thorough=5, source=None):
    """the part of a check that runs the scenario generator of a property"""
    def part(ctx):
        rounds = thorough if ctx.tier == "thorough" else quick
        for i in range(rounds):
            rng = random.Random(f"{ctx.seed}/{prop}/{i}")
            scs = [s.json() for s in gen.GENS[source or prop](rng, ctx.tier)]
            for s in scs:
                s["id"] = f"r{i}-{s['id']}"
            check_scenarios(ctx, scs, f"round {i}")
            if ctx.violations:
                return
    part.__name__ = "traces"
    return part
