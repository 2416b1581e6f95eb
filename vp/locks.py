"""Deadlocks: what the calls of the real library do to synchronise is recorded, and TLC explores all
interleavings of some calls.  A deadlock that it finds is reported if the real library, led along the same
schedule, deadlocks."""
import collections
import json
import os
import random
import re

from . import gen
from .conc import CSc, KINDS, Metric, Vals, agg_members, build, check_concurrent, execute
from .engine import CheckError, tlc
from .tour import config

HARMLESS = {"announce", "lock", "unlock", "rlock", "runlock", "mlock", "munlock", "add", "wait", "go"}


# ------------------------------------------------------------ the worlds

def metric_worlds(rng):
    for i, kind in enumerate(KINDS):
        for init in (True, False):
            if not init and kind not in gen.UNI + gen.EWUNI + ["Cov", "Corr", "EWMCov", "EWMCorr", "Autocov", "Autocorr"]:
                continue
            sc = CSc(f"locks-{kind}-{'' if init else 'no'}init", 0, 1, rng)
            m = Metric(rng, "m", kind, Vals(rng))
            m.make(sc.setup, noinit=not init)
            calls = []
            for c in "vcpvpvpppppvcv" if init else "vpcvp":
                calls.append(("m", c))
            if gen.arity(kind) == 2:
                calls.append(("m", "bad"))
            yield sc, {"m": m}, calls


def one(sc, t, ms, vals, o, c):
    """a call"""
    ar = gen.arity(ms[o].kind) if o in ms else 1
    if c == "p":
        t.push(o, *(ms[o].vals.next(ms[o].ar) if o in ms else vals.next(sc.ar)))
    elif c == "bad":
        t.push(o, *vals.next(5))
    elif c == "v":
        if o in ms:
            ms[o].read(t)
        else:
            t.val(o)
    elif c == "c":
        t.clear(o)
    elif c == "batch":
        t.op("lock", o).push(o, *vals.next(sc.ar), unsafe=True).op("count", o, unsafe=True).op("unlock", o)
    elif c == "reads":
        t.op("rlock", o).op("count", o, unsafe=True).op("mean", o, i=0, unsafe=True).op("runlock", o)
    elif c == "count":
        t.op("count", o)
    elif c == "mean":
        t.op("mean", o, i=0)
    elif c == "badmean":
        t.op("mean", o, i=9)
    elif c == "badsum":
        t.op("sum", o, ks=[9] if sc.ar == 1 else [9, 1])
    elif c == "sum":
        t.op("sum", o, ks=[2] if sc.ar == 1 else [1, 1])
    else:
        raise ValueError(c)


def core_worlds(rng):
    for dom in ("moment", "joint"):
        sc = CSc(f"locks-core-{dom}", 0, 1, rng)
        sc.ar = 1 if dom == "moment" else 2
        sc.setup.op("newcore", "c", cfg={"dom": dom, "w": 2, "sums": [[4]] if sc.ar == 1 else [[2, 2]]})
        ms = {}
        for k in (["Mean", "Std", "Skewness", "Kurtosis"] if sc.ar == 1 else ["Cov", "Corr"]):
            sc.setup.new(k, k, w=2, noinit=True)
            sc.setup.op("attach", k, core="c")
            ms[k] = Metric(rng, k, k, Vals(rng), {"w": 2})
        calls = [("c", c) for c in ["count", "mean", "sum", "p", "mean", "sum", "batch", "reads", "p", "badsum", "c", "count"]]
        if sc.ar == 2:
            calls += [("c", "bad"), ("c", "badmean")]
        for o in ms:
            calls += [(o, c) for c in "vpvpcpp"]
        yield sc, ms, calls


def agg_worlds(rng):
    for i in range(5):
        j = i % 2 == 1
        sc = CSc(f"locks-agg-{i}", 0, 1, rng)
        sc.ar = 2 if j else 1
        if i < 4:
            mem = agg_members(rng, sc, j, Vals(rng), failing=i >= 2)
        else:                      # members that share a core
            sc.setup.op("newcore", "c", cfg={"dom": "moment", "w": 2, "sums": [[4]]})
            mem = ["m0", "m1"]
            for o, kind in zip(mem, ["Mean", "Kurtosis"]):
                sc.setup.new(o, kind, w=2, noinit=True)
                sc.setup.op("attach", o, core="c")
            sc.setup.new("a", "SAgg", members=mem)
        calls = [("a", c) for c in "vpvpppcvp"]
        if j:
            calls.append(("a", "bad"))
        calls += [(m, c) for m in mem for c in "vpc"]
        yield sc, {}, calls


def worlds(rng):
    for sc, ms, calls in [*metric_worlds(rng), *core_worlds(rng), *agg_worlds(rng)]:
        vals = Vals(rng)
        sc.calls = [gen.Sc(sc.id) for _ in range(2 * len(calls))]
        # every call twice, so that what different calls share is seen
        for t, (o, c) in zip(sc.calls, [x for x in calls for _ in range(2)]):
            one(sc, t, ms, vals, o, c)
        d = sc.json()
        d.update(mode="record", threads=[t.ops for t in sc.calls])
        yield d


# ---------------------------------------------------------- the programs

def programs(d, rec):
    """the different programs of a recording, with the calls that have them and those before them"""
    users = collections.defaultdict(set)
    for e in rec["log"]:
        if e["Op"] != "go":
            users[e["Addr"]].add(e["G"].split(".")[0])
    shared = {}
    for e in rec["log"]:
        if len(users[e["Addr"]] - {""}) > 1 and e["Addr"] not in shared:
            shared[e["Addr"]] = len(shared) + 1
    out = collections.OrderedDict()
    for k in range(len(d["threads"])):
        evs = [e for e in rec["log"] if e["G"].split(".")[0] == str(k + 1) and "" not in users.get(e["Addr"], ())]
        if any(e["Op"] not in HARMLESS for e in evs):
            return None
        num, local = {str(k + 1): 1}, {}
        for e in evs:
            if e["Op"] == "go":
                num[f"{e['G']}.{e['N']}"] = len(num) + 1
        gs = [[] for _ in num]
        for e in evs:
            if e["Op"] == "go":
                gs[num[e["G"]] - 1].append({"op": "go", "l": 0, "n": num[f"{e['G']}.{e['N']}"]})
                continue
            a = e["Addr"]
            l = shared[a] if a in shared else local.setdefault(a, -1 - len(local))
            gs[num[e["G"]] - 1].append({"op": e["Op"], "l": l, "n": e["N"]})
        key = json.dumps(gs)
        if key not in out and any(gs):
            names = {v: n.split(".", 1)[1] if "." in n else "" for n, v in num.items()}
            out[key] = {"gs": gs, "call": k, "names": names}
    return list(out.values())


def explore(ctx, ws, threads):
    """what TLC found: None, or the world, the programs of the threads and the schedule"""
    path = os.path.join(ctx.work, "programs.json")
    with open(path, "w") as f:
        json.dump([[p["gs"] for p in ps] for _, ps in ws], f)
    t = tlc("Locks", ctx.work, cfg=config(ctx, "Locks", {"Threads": threads}), env={"PROGRAMS": path}, timeout=700)
    ctx.count(t)
    ctx.models.append({"module": "Locks", "cfg": f"{threads} calls", "worlds": len(ws),
                       "programs": sum(len(ps) for _, ps in ws), "distinct": t.distinct, "generated": t.generated,
                       "wall_s": round(t.wall, 1)})
    if t.ok:
        return None
    if "Invariant Alive is violated" not in t.out:
        raise CheckError(f"model Locks failed:\n{t.tail()}")
    w = int(re.findall(r"/\\ w = (\d+)", t.out)[0])
    prog = [int(x) for x in re.findall(r"/\\ prog = <<([^>]*)>>", t.out)[0].split(",")]
    last = [tuple(int(y) for y in x.split(",")) for x in re.findall(r"/\\ last = <<(\d+, \d+)>>", t.out)]
    return w - 1, [p - 1 for p in prog], last


def control(ctx):
    """defects that the model must find: a recursive read lock, and locks in different orders"""
    def seq(*ops):
        return [[{"op": op, "l": l, "n": 0} for op, l in ops]]
    read, write = [("rlock", 1), ("runlock", 1)], [("announce", 1), ("lock", 1), ("unlock", 1)]
    again = seq(("rlock", 1), ("rlock", 1), ("runlock", 1), ("runlock", 1))
    orders = [seq(("mlock", a), ("mlock", 3 - a), ("munlock", 3 - a), ("munlock", a)) for a in (1, 2)]
    for name, ps, bad in [("a read lock taken again", [again, seq(*write)], True),
                          ("read locks taken again", [again, seq(*read)], False),
                          ("locks in different orders", orders, True),
                          ("locks in one order", orders[:1], False)]:
        found = explore(ctx, [(None, [{"gs": p} for p in ps])], 2)
        ctx.models[-1]["cfg"] = "control: " + name
        if bool(found) != bad:
            raise CheckError(f"control of Locks: {name}")


def guide(ps, prog, last):
    """the names of the goroutines in the order of their steps that may wait"""
    at = collections.Counter()
    out = []
    for t, g in last:
        p = ps[prog[t - 1]]
        op = p["gs"][g - 1][at[t, g]]["op"]
        at[t, g] += 1
        if op in ("announce", "lock", "rlock", "mlock", "wait"):
            out.append(f"{t}" + (f".{p['names'][g]}" if p["names"][g] else ""))
    return out


def deadlocks(ctx):
    control(ctx)
    rng = random.Random(f"{ctx.seed}/locks")
    exe = build(ctx.work)
    scs = list(worlds(rng))
    hists, _ = execute(exe, scs, ctx.work, 300)
    byid = {s["id"]: s for s in scs}
    ws, skipped = [], []
    for rec in hists:
        if "log" not in rec:
            raise CheckError("no recording of " + rec["id"])
        ps = programs(byid[rec["id"]], rec) if rec["ok"] and not rec["degraded"] else None
        if ps:
            ws.append((byid[rec["id"]], ps))
        elif ps is None:
            skipped.append(rec["id"])
    if skipped:
        ctx.models.append({"module": "Locks", "not_modelled": skipped})
    sizes = [3, 4] if ctx.tier == "thorough" else [2, 3]
    for n in sizes:
        left = ws
        while left:
            found = explore(ctx, left, n)
            if found is None:
                break
            w, prog, last = found
            sc, ps = left[w]
            confirm(ctx, sc, ps, prog, last)
            if ctx.violations:
                return
            left = left[:w] + left[w + 1:]


def confirm(ctx, sc, ps, prog, last):
    """lead the real library along a schedule that deadlocks in the model"""
    first = [ps[p]["call"] for p in prog]
    for setup in (sc["setup"], sc["setup"] + [op for t in sc["threads"][:max(first)] for op in t]):
        d = {"id": sc["id"] + "-deadlock", "setup": setup, "threads": [sc["threads"][k] for k in first], "final": [],
             "limit": 1500, "seed": 1, "mode": "term",
             "plan": {"prio": [], "last": False, "pre": [], "guide": guide(ps, prog, last)}}
        check_concurrent(ctx, [d], "term")
        if not ctx.violations:
            check_concurrent(ctx, [{k: v for k, v in d.items() if k != "plan"}], "term")
        if ctx.violations:
            return
    ctx.models.append({"module": "Locks", "unconfirmed": d["id"]})


deadlocks.__name__ = "lock programs"
