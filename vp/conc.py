"""Concurrency: calls of threads on the real library under many schedules, histories validated by TLC."""
import json
import os
import random
import re
import subprocess
import time

from . import gen
from .engine import REPO, ROOT, CheckError, build_driver, goenv, read_ndjson, run, tlc, write_modfile, write_ndjson
from .traces import FATAL

QUEUE = "/root/go/pkg/mod/github.com/workiva/go-datastructures@v1.0.50/queue"
PROCS = 8


def build(work, repo=REPO):
    """a driver with the library, and its ring buffer, instrumented with scheduling points"""
    out = os.path.join(work, "conc")
    if os.path.exists(out):
        return out
    instr = build_driver(work, "instr")
    inst, wk = os.path.join(work, "inst"), os.path.join(work, "workiva")
    cmds = [[instr, repo, inst]]
    extra = ""
    if os.path.isdir(QUEUE):
        cmds.append([instr, QUEUE, os.path.join(wk, "queue"), "ring.go"])
        extra = f"replace github.com/workiva/go-datastructures => {wk}\n"
    for c in cmds:
        p = run(c)
        if p.returncode:
            raise CheckError("instrumentation failed: " + p.stdout)
    if extra:
        with open(os.path.join(wk, "go.mod"), "w") as f:
            f.write("module github.com/workiva/go-datastructures\n")
    mod = write_modfile(work, inst, extra)
    p = run(["go", "build", "-race", "-modfile=" + mod, "-gcflags=vp/vsync=-race=false", "-o", out, "./cmd/conc"],
            cwd=os.path.join(ROOT, "harness"), env=goenv(), timeout=800)
    if p.returncode:
        raise CheckError(f"build of the instrumented library failed:\n{p.stdout[-3000:]}")
    return out


# ------------------------------------------------------------- execution

def start(exe, scs, work, name):
    src, dst = os.path.join(work, name + ".in"), os.path.join(work, name + ".out")
    write_ndjson(src, scs)
    env = goenv()
    env["GORACE"] = f"log_path={dst}.race exitcode=0 halt_on_error=0"
    env["GOMAXPROCS"] = "2"
    log = open(dst + ".log", "w")
    return subprocess.Popen([exe, src, dst], env=env, stdout=log, stderr=log), src, dst


def lines_of(dst):
    if not os.path.exists(dst):
        return []
    with open(dst) as f:
        text = f.read()
    return [json.loads(x) for x in text.split("\n")[:-1]]


def race_report(dst):
    d, base = os.path.split(dst)
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith(base + ".race"):
            out.append(open(os.path.join(d, f)).read())
    return "\n".join(out)


def execute(exe, scs, work, timeout):
    """the distinct histories of scenarios, and statistics"""
    parts = [scs[i::PROCS] for i in range(PROCS)]
    hists, stats = [], {"schedules": 0, "degraded": 0, "done": 0}
    procs = [start(exe, part, work, f"c{i}") + (part,) for i, part in enumerate(parts) if part]
    end = time.time() + timeout
    for p, src, dst, part in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for q in procs:
                q[0].kill()
            raise CheckError("timeout of concurrent executions")
        lines = lines_of(dst)
        done = [x for x in lines if x.get("done")]
        hs = [x for x in lines if not x.get("done")]
        for x in done:
            stats["schedules"] += x["schedules"]
            stats["degraded"] += bool(x["degraded"])
        if rc:
            hs += crashed(exe, part[len(done)], work, dst)
        stats["done"] += len(done)
        report = race_report(dst)
        for h in hs:
            if h.get("end") == "race":
                h["report"] = report[:4000]
        hists += hs
    return hists, stats


def crashed(exe, sc, work, dst):
    """a scenario that killed the process"""
    out = open(dst + ".log").read()
    if not FATAL.search(out):
        raise CheckError(f"concurrent driver failed on {sc['id']}:\n{out[-3000:]}")
    p, _, dst2 = start(exe, [sc], work, "again")
    rc = p.wait(600)
    out2 = open(dst2 + ".log").read()
    if rc == 0 or not FATAL.search(out2):
        raise CheckError(f"crash of {sc['id']} was not reproduced:\n{out[-3000:]}")
    return [{"id": sc["id"], "calls": [], "ev": [], "end": "crash: " + FATAL.search(out2).group(0) + out2[-1500:],
             "plan": None, "steps": 0}]


# ------------------------------------------------------------- validation

def validate(hists, work, timeout=800):
    """indices of the histories that LinTrace rejects"""
    path = os.path.join(work, "lin.ndjson")
    write_ndjson(path, hists)
    t = tlc("LinTrace", work, env={"TRACES": path}, timeout=timeout, mem="10g")
    if not t.ok:
        raise CheckError(f"TLC failed on {path}:\n{t.tail()}")
    acc = {a[0] for a in t.prints("ACCEPTED")}
    return [i for i in range(len(hists)) if i + 1 not in acc], t


def slim(h, mode):
    return {"id": h["id"], "calls": h["calls"], "ev": h["ev"], "end": h["end"].split(":")[0], "mode": mode}


def show(h):
    s = [f"{h['id']}: execution ended with {h['end']}" + (f" (plan {json.dumps(h['plan'])})" if h["plan"] else "")]
    for e in h["ev"]:
        c = h["calls"][e["i"] - 1]
        if c["op"] == "new":
            continue
        args = {k: v for k, v in c.items() if k not in ("r", "op", "o", "t", "unsafe")}
        what = f"{c['op']} {c['o']}" + (" " + json.dumps(args) if args and not e["ret"] else "")
        s.append(f"  T{c['t']} " + (f"{c['op']} {c['o']} returned {json.dumps(c.get('r'))}" if e["ret"] else what))
    if h.get("report"):
        s.append(h["report"])
    return "\n".join(s)


def check_concurrent(ctx, scs, mode, timeout=700):
    """mode: "lin" results are linearizable, no races and panics; "term" every call returns; "both" """
    exe = build(ctx.work)
    scs = [dict(s, mode=mode) for s in scs]
    hists, stats = execute(exe, scs, ctx.work, timeout)
    if not hists:
        raise CheckError("no histories")
    rejected, t = validate([slim(h, mode) for h in hists], ctx.work)
    ctx.count(t, traces=len(hists))
    ctx.note(schedules=stats["schedules"], concurrent_scenarios=stats["done"], distinct_histories=len(hists),
             degraded=stats["degraded"])
    ctx.sample({"id": hists[0]["id"], "ev": hists[0]["calls"]})
    byid = {s["id"]: s for s in scs}
    seen = set()
    for i in rejected:
        h = hists[i]
        if h["id"] in seen:
            continue
        seen.add(h["id"])
        sc = dict(byid[h["id"]])
        if h["plan"]:
            sc["plan"] = h["plan"]
        if h["end"] == "hang" or h.get("degraded"):
            # the machine may have been too busy for the plan to be followed
            if not again(ctx, exe, sc, h, mode):
                ctx.note(unconfirmed=1)
                continue
        ctx.violation(show(h), {"kind": "concurrent", "mode": mode, "scenario": sc, "history": h})
        if len(ctx.violations) >= 3:
            break
    if stats["done"] < len(scs) and not ctx.violations:
        raise CheckError(f"only {stats['done']} of {len(scs)} concurrent scenarios were executed")


def again(ctx, exe, sc, h, mode):
    """is a history rejected when the scenario is executed again, under its plan and under others"""
    scs = [dict(sc, id=f"{sc['id']}-again{i}") for i in range(12)]
    scs += [dict({k: v for k, v in sc.items() if k != "plan"}, id=f"{sc['id']}-free{i}", seed=sc["seed"] + i)
            for i in range(4)]
    hists, _ = execute(exe, scs, ctx.work, 600)
    if h["end"] == "hang":
        return any(a["end"] == "hang" for a in hists)
    rejected, _ = validate([slim(x, mode) for x in hists], ctx.work)
    return bool(rejected)


def replay(ctx, rep):
    scs = []
    for i in range(5):
        s = dict(rep["scenario"])
        s["id"] += f"-{i}"
        scs.append(s)
    check_concurrent(ctx, scs, rep["mode"])


# -------------------------------------------------------------- scenarios

class CSc:
    """a concurrent scenario under construction"""

    def __init__(self, sid, n, limit, rng):
        self.id, self.limit = sid, limit
        self.setup, self.final = gen.Sc(sid), gen.Sc(sid)
        self.t = [gen.Sc(sid) for _ in range(n)]
        self.seed = rng.randrange(1 << 40)

    def json(self):
        return {"id": self.id, "setup": self.setup.ops, "threads": [t.ops for t in self.t], "final": self.final.ops,
                "limit": self.limit, "seed": self.seed}


class Vals:
    """distinct observations"""

    def __init__(self, rng):
        self.rng, self.i = rng, 0

    def next(self, n=1):
        self.i += 1
        return [float((-1) ** self.i * self.i * self.i + (3 * j * self.i) % 7) + self.rng.choice([0, 0.25])
                for j in range(n)]


def small(rng, kind):
    p = gen.params(rng, kind)
    if p.get("w"):
        p["w"] = rng.choice([1, 2, 2, 3, 3, 4, 5])
    if p.get("lag"):
        p["lag"] = rng.choice([1, 1, 2, 3])
    return p


KINDS = gen.ALLM


class Metric:
    """a metric that calls are made on"""

    def __init__(self, rng, o, kind, vals, p=None):
        self.rng, self.o, self.kind, self.vals = rng, o, kind, vals
        self.p = p or small(rng, kind)
        self.ar = gen.arity(kind)

    def make(self, sc, **kw):
        sc.new(self.o, self.kind, **self.p, **kw)

    def push(self, sc):
        sc.push(self.o, *self.vals.next(self.ar))

    def read(self, sc):
        if self.kind == "Quantile":
            sc.val(self.o, self.rng.choice([0.5, 0.25, 0.9]))
        else:
            sc.val(self.o)

    def fill(self, sc, n=None):
        w = self.p.get("w") or 3
        n = self.rng.choice([0, 1, w - 1, w, w + 1, w + 2]) if n is None else n
        n += self.p.get("lag", 0) if self.rng.random() < 0.8 else 0
        if n:
            sc.pushn(self.o, [self.vals.next(self.ar) for _ in range(n)])


def do(m, sc, c):
    if c == "p":
        m.push(sc)
    elif c == "v":
        m.read(sc)
    elif c == "c":
        sc.clear(m.o)
    elif c == "b":
        sc.pushn(m.o, [m.vals.next(m.ar) for _ in range(3)])


# calls of the threads: p push, v value, c clear
SHAPES = [["pv", "pv"], ["pp", "vv"], ["p", "p", "v"], ["pv", "cv"], ["cp", "vp"], ["p", "v", "c"], ["pp", "pp"],
          ["pc", "pv"], ["pvp", "vpv"], ["p", "p", "p"], ["v", "v", "p"], ["ppp", "vvv"], ["cpv", "pvc"],
          ["pv", "pv", "pv"], ["c", "c", "p"], ["vc", "vp"]]


def metric_races(rng, tag, n, limit, kinds=KINDS, shapes=SHAPES):
    """threads that use one metric"""
    k0 = rng.randrange(len(shapes))
    for i in range(n):
        kind = kinds[i % len(kinds)]
        shape = shapes[(k0 + i + i // len(kinds)) % len(shapes)]
        sc = CSc(f"{tag}-{kind}-{'.'.join(shape)}-{i}", len(shape), limit, rng)
        m = Metric(rng, "m", kind, Vals(rng))
        m.make(sc.setup)
        m.fill(sc.setup)
        for t, calls in zip(sc.t, shape):
            for c in calls:
                do(m, t, c)
        m.read(sc.final)
        m.push(sc.final)
        m.read(sc.final)
        yield sc


def shared_core(rng, tag, n, limit):
    """threads that use a core, and metrics attached to it"""
    for i in range(n):
        dom = "moment" if i % 2 else "joint"
        vals = Vals(rng)
        v = 1 if dom == "moment" else 2
        w = rng.choice([0, 1, 2, 3, 4])
        cfg = {"dom": dom, "w": w, "sums": [[4], [3]] if dom == "moment" else [[2, 2]]}
        sc = CSc(f"{tag}-core-{dom}-{i}", rng.choice([2, 3]), limit, rng)
        sc.setup.op("newcore", "c", cfg=cfg)
        objs = ["c"]
        kinds = ["Mean", "Std", "Skewness", "Kurtosis"] if dom == "moment" else ["Cov", "Corr"]
        for j, kind in enumerate(rng.sample(kinds, 2)):
            sc.setup.new(f"m{j}", kind, w=w, noinit=True)
            sc.setup.op("attach", f"m{j}", core="c")
            objs.append(f"m{j}")
        for _ in range(rng.choice([0, 1, 2, w, w + 1])):
            sc.setup.push("c", *vals.next(v))

        def call(s):
            r = rng.random()
            if r < 0.35:
                s.push(rng.choice(objs), *vals.next(v))
            elif r < 0.45:
                s.clear(rng.choice(objs))
            elif r < 0.6:
                s.val(rng.choice(objs[1:]))
            elif r < 0.7:
                s.op("count", "c")
            elif r < 0.8:
                s.op("mean", "c", i=rng.randrange(v))
            else:
                ks = [rng.choice([1, 2, 3, 4])] if v == 1 else rng.choice([[1, 1], [2, 0], [0, 2], [2, 1], [2, 2]])
                s.op("sum", "c", ks=ks)
        for j, t in enumerate(sc.t):
            if j == 0:
                t.push(rng.choice(objs), *vals.next(v))
            for _ in range(rng.choice([1, 2, 3]) if len(sc.t) == 2 else rng.choice([1, 2])):
                call(t)
        sc.final.op("count", "c")
        sc.final.op("sum", "c", ks=[2] if v == 1 else [1, 1])
        sc.final.push("c", *vals.next(v))
        for o in objs[1:]:
            sc.final.val(o)
        yield sc


def agg_members(rng, sc, j, vals, failing=False, probes=True):
    kinds = ["Cov", "Corr", "EWMCov"] if j else ["Mean", "Std", "Max", "Min", "Median", "HeapMedian", "EWMA", "Autocov"]
    mem = []
    for k, kind in enumerate(rng.sample(kinds, rng.choice([0, 1, 2, 2] if probes else [2, 3]))):
        p = small(rng, kind)
        if kind == "Median":
            p["opts"] = gen.qopts(rng)
        sc.setup.new(f"m{k}", kind, **p)
        mem.append(f"m{k}")
    if probes:
        for k in range(rng.choice([2, 2, 3]) if not mem else 1):
            mode = rng.choice(["", "failpush", "failval"]) if failing else ""
            sc.setup.new(f"p{k}", "JProbe" if j else "Probe", mode=mode)
            mem.append(f"p{k}")
    rng.shuffle(mem)
    sc.setup.new("a", "JAgg" if j else "SAgg", members=mem)
    return mem


AGG_SHAPES = [["pv", "pv"], ["pp", "vv"], ["p", "p", "v"], ["p", "c", "v"], ["pv", "cv"], ["p", "p"], ["pv", "vp"],
              ["pc", "pv"], ["p", "v", "v"], ["c", "c", "p"], ["v", "v"], ["cp", "v"]]


def aggregates(rng, tag, n, limit, failing=False, direct=False):
    k0 = rng.randrange(len(AGG_SHAPES))
    for i in range(n):
        j = i % 2 == 1
        shape = AGG_SHAPES[(k0 + i // 2) % len(AGG_SHAPES)]
        vals = Vals(rng)
        sc = CSc(f"{tag}-agg{'J' if j else 'S'}-{'.'.join(shape)}-{i}", len(shape) + direct, limit, rng)
        mem = agg_members(rng, sc, j, vals, failing)
        ar = 2 if j else 1
        for _ in range(rng.choice([0, 1, 2, 3])):
            sc.setup.push("a", *vals.next(ar))
        for t, calls in zip(sc.t, shape):
            for c in calls:
                if c == "p":
                    t.push("a", *vals.next(1 if j and failing and rng.random() < 0.3 else ar))
                elif c == "v":
                    t.val("a")
                else:
                    t.clear("a")
        if direct:
            for _ in range(2):
                m = rng.choice(mem)
                rng.choice([lambda: sc.t[-1].push(m, *vals.next(ar)), lambda: sc.t[-1].val(m),
                            lambda: sc.t[-1].clear(m)])()
        sc.final.val("a")
        sc.final.push("a", *vals.next(ar))
        for m in mem:
            sc.final.val(m)
        yield sc


def shared_aggregates(rng, tag, n, limit):
    """members that share a core"""
    for i in range(n):
        vals = Vals(rng)
        sc = CSc(f"{tag}-aggcore-{i}", 2, limit, rng)
        w = rng.choice([0, 2, 3])
        sc.setup.op("newcore", "c", cfg={"dom": "moment", "w": w, "sums": [[4]]})
        for k, kind in enumerate(["Mean", "Std", "Kurtosis"]):
            sc.setup.new(f"m{k}", kind, w=w, noinit=True)
            sc.setup.op("attach", f"m{k}", core="c")
        sc.setup.new("a", "SAgg", members=["m0", "m1", "m2"])
        sc.setup.push("a", *vals.next())
        for t in sc.t:
            for _ in range(2):
                r = rng.random()
                if r < 0.4:
                    t.push("a", *vals.next())
                elif r < 0.8:
                    t.val("a")
                else:
                    t.clear("a")
        sc.final.val("a")
        yield sc


def errors(rng, tag, n, limit):
    """calls that fail, mixed with others"""
    for i in range(n):
        sc = CSc(f"{tag}-err-{i}", 3, limit, rng)
        vals = Vals(rng)
        what = i % 5
        if what == 0:        # a joint core and pushes of wrong sizes
            sc.setup.op("newcore", "c", cfg={"dom": "joint", "w": 2, "sums": [[1, 1]]})
            calls = [lambda t: t.push("c", *vals.next(2)), lambda t: t.push("c", *vals.next(rng.choice([1, 3]))),
                     lambda t: t.op("sum", "c", ks=rng.choice([[1, 1], [3, 1], [1]])),
                     lambda t: t.op("mean", "c", i=rng.choice([0, 1, 2, -1])), lambda t: t.op("count", "c"),
                     lambda t: t.clear("c")]
        elif what == 1:      # a moment core with few sums
            sc.setup.op("newcore", "c", cfg={"dom": "moment", "w": 2, "sums": [[2]]})
            sc.setup.new("k", "Kurtosis", w=2, noinit=True)
            sc.setup.op("attach", "k", core="c")
            calls = [lambda t: t.push("c", *vals.next()), lambda t: t.op("sum", "c", ks=[rng.choice([2, 5])]),
                     lambda t: t.val("k"), lambda t: t.op("mean", "c", i=0), lambda t: t.clear("k")]
        elif what == 2:      # values of an empty or misused quantile metric
            m = Metric(rng, "m", rng.choice(["Quantile", "Median", "IQR", "HeapMedian", "Min", "Max"]), vals)
            m.make(sc.setup)
            calls = [lambda t: m.push(t), lambda t: m.read(t), lambda t: t.clear("m"),
                     lambda t: t.val("m", rng.choice([0, 1, 1.5, -1, "nan", 0.5])) if m.kind == "Quantile" else m.read(t)]
        elif what == 3:      # metrics of an empty core
            kind = rng.choice(["Mean", "Std", "Autocov", "Autocorr", "Cov", "Corr", "EWMStd", "EWMCorr"])
            m = Metric(rng, "m", kind, vals)
            m.make(sc.setup)
            calls = [lambda t: m.push(t), lambda t: m.read(t), lambda t: t.clear("m")]
            if gen.arity(kind) == 2:
                calls.append(lambda t: t.push("m", *vals.next(3)))
        else:                # metrics without a core
            kind = rng.choice(["Mean", "Std", "Autocov", "Autocorr", "Cov", "Corr", "EWMStd", "EWMCorr"])
            m = Metric(rng, "m", kind, vals)
            m.make(sc.setup, noinit=True)
            calls = [lambda t: m.push(t), lambda t: m.read(t), lambda t: t.clear("m")]
        for t in sc.t:
            for _ in range(rng.choice([1, 2, 3])):
                rng.choice(calls)(t)
        for _ in range(3):
            rng.choice(calls)(sc.final)
        yield sc


def batches(rng, tag, n, limit):
    """explicit locks"""
    for i in range(n):
        vals = Vals(rng)
        dom = rng.choice(["moment", "joint"])
        v = 1 if dom == "moment" else 2
        w = rng.choice([0, 2, 3, 4])
        cfg = {"dom": dom, "w": w, "sums": [[3], [4]] if v == 1 else [[2, 1]]}
        what = ["batch", "reads", "two", "clear", "readers", "batch3"][i % 6]
        sc = CSc(f"{tag}-{what}-{dom}-{i}", 3 if what in ("batch3", "readers") else 2, limit, rng)
        sc.setup.op("newcore", "c", cfg=cfg)
        kind = rng.choice(["Mean", "Std", "Kurtosis"] if v == 1 else ["Cov"])
        sc.setup.new("m", kind, w=w, noinit=True)
        sc.setup.op("attach", "m", core="c")
        for _ in range(rng.choice([1, 2, 3])):
            sc.setup.push("c", *vals.next(v))

        def upush(t):
            t.push("c", *vals.next(v), unsafe=True)

        def uread(t):
            r = rng.randrange(3)
            if r == 0:
                t.op("count", "c", unsafe=True)
            elif r == 1:
                t.op("mean", "c", i=rng.randrange(v), unsafe=True)
            else:
                t.op("sum", "c", ks=[rng.choice([1, 2, 3])] if v == 1 else rng.choice([[1, 0], [1, 1], [2, 1]]),
                     unsafe=True)

        def safe(t, writes=True):
            r = rng.random() if writes else 0.3 + 0.7 * rng.random()
            if r < 0.3:
                rng.choice([lambda: t.push(rng.choice(["c", "m"]), *vals.next(v)), lambda: t.clear(rng.choice(["c", "m"]))])()
            elif r < 0.5:
                t.val("m")
            elif r < 0.65:
                t.op("count", "c")
            elif r < 0.8:
                t.op("mean", "c", i=rng.randrange(v))
            else:
                t.op("sum", "c", ks=[2] if v == 1 else [1, 1])

        def batch(t):
            t.op("lock", "c")
            for _ in range(rng.choice([2, 3])):
                rng.choice([upush, upush, uread])(t)
            if rng.random() < 0.2:
                t.op("uclear", "c")
                upush(t)
            t.op("unlock", "c")

        def rbatch(t):
            t.op("rlock", "c")
            for _ in range(rng.choice([2, 3])):
                rng.choice([uread, uread, lambda t: uread(t)])(t)
            t.op("runlock", "c")

        if what in ("batch", "batch3"):
            batch(sc.t[0])
            for t in sc.t[1:]:
                safe(t)
                safe(t)
        elif what == "reads":
            rbatch(sc.t[0])
            sc.t[1].push(rng.choice(["c", "m"]), *vals.next(v))
            safe(sc.t[1])
        elif what == "two":
            batch(sc.t[0])
            rng.choice([batch, rbatch])(sc.t[1])
        elif what == "clear":
            rbatch(sc.t[0])
            sc.t[1].clear(rng.choice(["c", "m"]))
            sc.t[1].push("c", *vals.next(v))
        elif what == "readers":
            # readers can proceed while a reader holds its lock
            a = sc.t[0]
            a.op("rlock", "c")
            uread(a)
            a.op("await", i=2, k=2)
            a.op("await", i=3, k=2)
            uread(a)
            a.op("runlock", "c")
            for t in sc.t[1:]:
                if rng.random() < 0.5:
                    safe(t, False)
                    safe(t, False)
                else:
                    t.op("rlock", "c")
                    uread(t)
                    t.op("runlock", "c")
        sc.final.op("count", "c")
        sc.final.op("sum", "c", ks=[2] if v == 1 else [1, 1])
        sc.final.push("c", *vals.next(v))
        sc.final.val("m")
        yield sc


def wrapped_locks(rng, tag, n, limit):
    """the lock of the core of a metric that has its own core cannot be reached; autocorrelations use it"""
    for i in range(n):
        vals = Vals(rng)
        kind = ["Autocov", "Autocorr"][i % 2]
        w = rng.choice([0, 2, 3])
        lag = rng.choice([0, 1, 2])
        sc = CSc(f"{tag}-{kind}-{i}", 2, limit, rng)
        sc.setup.op("newcore", "c", cfg={"dom": "joint", "w": w, "sums": [[2, 2]]})
        sc.setup.new("m", kind, w=w, lag=lag, noinit=True)
        sc.setup.op("attach", "m", core="c")
        sc.setup.pushn("m", [vals.next() for _ in range(lag + 2)])
        a, b = sc.t
        if i % 3 == 0:
            a.op("lock", "c").op("count", "c", unsafe=True)
            a.push("c", *vals.next(2), unsafe=True).push("c", *vals.next(2), unsafe=True).op("unlock", "c")
        else:
            a.op("rlock", "c").op("count", "c", unsafe=True).op("sum", "c", ks=[1, 1], unsafe=True)
            a.op("sum", "c", ks=[1, 0], unsafe=True).op("runlock", "c")
        rng.choice([lambda: b.push("m", *vals.next()), lambda: b.clear("m"), lambda: b.val("m")])()
        b.push("m", *vals.next())
        sc.final.val("m")
        sc.final.push("m", *vals.next())
        sc.final.val("m")
        yield sc


def quantile_locks(rng, tag, n, limit):
    for i in range(n):
        vals = Vals(rng)
        what = ["reads", "readers"][i % 2]
        sc = CSc(f"{tag}-quantile-{what}-{i}", 3, limit, rng)
        m = Metric(rng, "m", "Quantile", vals)
        m.make(sc.setup)
        m.fill(sc.setup, rng.choice([1, 2, 3]))
        a = sc.t[0]
        a.op("rlock", "m")
        if what == "readers":
            m.read(a)
            for k in (2, 3):
                a.op("await", i=k, k=2)
            for t in sc.t[1:]:
                t.op("rlock", "m")
                m.read(t)
                t.op("runlock", "m")
            m.read(a)
        # Value takes the lock again, which a waiting push would keep from happening
        a.op("runlock", "m")
        if what == "reads":
            do(m, sc.t[1], rng.choice("ppc"))
            do(m, sc.t[1], rng.choice("ppc"))
            m.read(sc.t[2])
            m.read(sc.t[2])
        m.read(sc.final)
        yield sc


def reservoirs(rng, tag, n, limit):
    for i in range(n):
        nt = rng.choice([2, 3])
        sc = CSc(f"{tag}-conc-{i}", nt, limit, rng)
        sc.setup.new("r", "Reservoir", size=rng.choice([1, 2, 3, 4, 6]))
        sc.setup.op("rseed", "r", i=rng.randint(0, 10**9))
        nxt = 1
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            sc.setup.op("rpush", "r", i=nxt)
            nxt += 1
        for t in sc.t:
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < 0.65:
                    t.op("rpush", "r", i=nxt)
                    nxt += 1
                else:
                    t.op("rsample", "r", mut=rng.random() < 0.5)
        sc.final.op("rsample", "r", mut=True)
        sc.final.op("rpush", "r", i=nxt)
        sc.final.op("rsample", "r")
        yield sc


def separate_orders(rng, tag, n, limit):
    """threads that have their own order structures, with the library's own source of random numbers"""
    for i in range(n):
        kind = ["Skip", "Skip", "Quantile", "AVL", "RB"][i % 5]
        sc = CSc(f"{tag}-order-{kind}-{i}", 2, limit, rng)
        for k, t in enumerate(sc.t):
            o = f"s{k}"
            where = sc.setup if rng.random() < 0.5 else t
            if kind == "Quantile":
                where.new(o, kind, w=3, opts=[{"t": "impl", "v": 2}])
                for x in rng.choices([1.0, 2.0, 5.0], k=4):
                    t.push(o, x)
                t.val(o, 0.5)
                sc.final.push(o, 4.0).val(o, 0.25)
                continue
            where.new(o, kind, opts=[])
            held = []
            for _ in range(rng.randint(3, 6)):
                r = rng.random()
                if r < 0.65 or not held:
                    held.append(rng.choice([1.0, 2.0, 3.0]))
                    t.op("add", o, x=held[-1])
                elif r < 0.8:
                    t.op("remove", o, x=held.pop())
                else:
                    t.op("select", o, i=rng.randrange(len(held)))
            sc.final.op("size", o).op("rank", o, x=2.5).op("select", o, i=0)
        yield sc


def separate(rng, tag, n, limit):
    """threads that have their own instances"""
    for i in range(n):
        kind = (KINDS + ["Reservoir"])[i % (len(KINDS) + 1)]
        sc = CSc(f"{tag}-separate-{kind}-{i}", 2, limit, rng)
        if kind == "Reservoir":
            for k, t in enumerate(sc.t):
                r = f"r{k}"
                sc.setup.new(r, kind, size=rng.choice([1, 2, 3]))
                for j in range(5):
                    t.op("rpush", r, i=j + 1)
                t.op("rsample", r, mut=True).op("rpush", r, i=6)
                sc.final.op("rsample", r, mut=False)
            yield sc
            continue
        same = small(rng, kind)
        other = i > len(KINDS)      # possibly metrics of different kinds
        for k, t in enumerate(sc.t):
            m = Metric(rng, f"m{k}", rng.choice(KINDS) if other and rng.random() < 0.5 else kind, Vals(rng))
            if m.kind == kind and rng.random() < 0.5:
                m.p = same
            if (k == 0) != other and rng.random() < 0.7:
                m.make(sc.setup)
                m.fill(sc.setup)
            else:
                m.make(t)
            for c in rng.choice(["pvpv", "pbv", "bvcpv", "bpv", "bvpc"]):
                do(m, t, c)
            m.push(sc.final)
            m.read(sc.final)
        yield sc


def part(name, mode, source):
    """a part of a check: source(rng, thorough) yields scenarios"""
    def run_part(ctx):
        big = ctx.tier == "thorough"
        for i in range(4 if big else 1):
            rng = random.Random(f"{ctx.seed}/{name}/{i}")
            scs = [s.json() for s in source(rng, big)]
            ids = {s["id"] for s in scs}
            if len(ids) != len(scs):
                raise CheckError("scenarios with equal names")
            check_concurrent(ctx, scs, mode)
            if ctx.violations:
                return
    run_part.__name__ = name
    return run_part


def c16(rng, big):
    lim = 2500 if big else 600
    yield from metric_races(rng, "c16", 160 if big else 64, lim)
    yield from shared_core(rng, "c16", 60 if big else 24, lim)
    yield from errors(rng, "c16", 30 if big else 10, lim)


def c17(rng, big):
    lim = 1500 if big else 400
    yield from metric_races(rng, "c17", 60 if big else 40, lim,
                            shapes=[["vv", "pp", "vc"], ["v", "p", "c"], ["pv", "vp", "cv"], ["vv", "vv", "pp"]])
    yield from shared_core(rng, "c17", 40 if big else 20, lim)
    yield from errors(rng, "c17", 40 if big else 20, lim)
    yield from aggregates(rng, "c17", 30 if big else 12, lim // 2, failing=True)
    yield from aggregates(rng, "c17d", 30 if big else 10, lim // 2, failing=True, direct=True)
    yield from shared_aggregates(rng, "c17", 12 if big else 4, lim // 2)


def c19(rng, big):
    lim = 1500 if big else 500
    yield from aggregates(rng, "c19", 100 if big else 40, lim)
    yield from aggregates(rng, "c19f", 24 if big else 8, lim, failing=True)
    yield from shared_aggregates(rng, "c19", 20 if big else 6, lim)


def c24(rng, big):
    lim = 2500 if big else 800
    yield from batches(rng, "c24", 120 if big else 48, lim)
    yield from wrapped_locks(rng, "c24", 30 if big else 12, lim)
    yield from quantile_locks(rng, "c24", 30 if big else 12, lim)


def c20(rng, big):
    yield from reservoirs(rng, "c20", 100 if big else 30, 2500 if big else 800)


def c23(rng, big):
    yield from separate(rng, "c23", 120 if big else 42, 400 if big else 80)
    yield from separate_orders(rng, "c23", 40 if big else 10, 400 if big else 80)


C16 = part("concurrent calls", "lin", c16)
C17 = part("concurrent calls", "term", c17)
C19 = part("concurrent calls", "lin", c19)
C20 = part("concurrent calls", "lin", c20)
C23 = part("concurrent instances", "lin", c23)
C24 = part("explicit locks", "both", c24)
