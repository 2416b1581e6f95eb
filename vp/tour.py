"""Conformance of behaviours of the specification: TLC enumerates the state graph of a
model, all its transitions are covered by sequences of calls, the real library executes
them, and TLC validates what it did."""
import collections
import itertools
import json
import os
import random
import re

from .engine import SPEC, CheckError, tlc
from .gen import Sc
from .traces import check_scenarios


def parse(text):
    """a TLA+ value of sequences, integers and strings"""
    text = text.replace("<<", "[").replace(">>", "]")
    if not re.fullmatch(r'[\[\]\s,\-0-9"A-Za-z_.]*', text):
        raise CheckError("bad value of a model: " + text[:200])
    return eval(text, {"TRUE": True, "FALSE": False})  # pylint: disable=eval-used


def config(ctx, module, consts):
    """the configuration of a module with other constants"""
    text = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(rf"^(  {k} = ).*$", rf"\g<1>{v}", text, flags=re.M)
        if n != 1:
            raise CheckError(f"no constant {k} in {module}.cfg")
    path = os.path.join(ctx.work, f"{module}-{len(ctx.models)}.cfg")
    with open(path, "w") as f:
        f.write(text)
    return path


def label(module, consts):
    return module + "".join(f" {k}={v}" for k, v in (consts or {}).items())


def graph(ctx, module, consts, timeout=600):
    """the transitions of a model: {state: [(op, state)]}"""
    cfg = label(module, consts)
    t = tlc(module, ctx.work, cfg=config(ctx, module, consts), timeout=timeout, workers=4)
    if not t.ok:
        raise CheckError(f"model {module} ({cfg}) does not hold:\n{t.tail()}")
    ctx.count(t)
    ctx.models.append({"module": module, "cfg": cfg, "distinct": t.distinct, "generated": t.generated,
                       "wall_s": round(t.wall, 1)})
    edges = collections.OrderedDict()
    for line in t.out.split("\n"):
        if line.startswith('"EDGE|'):
            a, op, b = line[6:-1].replace('\\"', '"').split("|")
            edges[(a, op, b)] = None
    out = collections.defaultdict(list)
    for a, op, b in sorted(edges):
        out[a].append((op, b))
    return out


def tours(g, start, rng, limit=None, maxlen=150):
    """walks from `start` that cover all transitions, or about `limit` of them, each once if possible"""
    todo = {a: list(es) for a, es in g.items()}
    for es in todo.values():
        rng.shuffle(es)
    left = sum(len(es) for es in todo.values())
    stop = 0 if limit is None else max(0, left - limit)
    walks, walk, at = [], [], start
    while left > stop:
        if len(walk) >= maxlen:
            walks.append(walk)
            walk, at = [], start
        if not todo.get(at):
            path = nearest(g, at, todo)
            if path is None:
                if not walk:
                    break                  # the rest cannot be reached
                walks.append(walk)
                walk, at = [], start
                continue
            walk += path
            at = path[-1][1]
        e = todo[at].pop()
        left -= 1
        walk.append(e)
        at = e[1]
    if walk:
        walks.append(walk)
    return walks


def nearest(g, at, todo):
    """the shortest path to a state with a transition to cover"""
    prev = {at: None}
    queue = collections.deque([at])
    while queue:
        a = queue.popleft()
        if a != at and todo.get(a):
            path = []
            while prev[a]:
                e, b = prev[a]
                path.append(e)
                a = b
            return path[::-1]
        for e in g.get(a, ()):
            if e[1] not in prev:
                prev[e[1]] = (e, a)
                queue.append(e[1])
    return None


def toured(module, scenario, quick=None, thorough=None, consts=None, big=None, start="<<>>", maxlen=150):
    """A part of a check.  scenario(walk, rng, tier, id) makes the scenarios of a walk, a list of operations;
    consts (or big, in a thorough run) are lists of constants that differ from those of the configuration file;
    quick and thorough bound the number of transitions that are covered."""
    def part(ctx):
        deep = ctx.tier == "thorough"
        for c in (big if deep and big else consts) or [{}]:
            one(ctx, c, thorough if deep else quick)
            if ctx.violations:
                return

    def one(ctx, c, limit):
        rng = random.Random(f"{ctx.seed}/{module}/{c}")
        g = graph(ctx, module, c)
        total = sum(len(es) for es in g.values())
        walks = tours(g, start, rng, limit, maxlen)
        if not walks:
            raise CheckError(f"no walks of {label(module, c)}")
        scs = []
        for i, w in enumerate(walks):
            for sc in scenario([parse(op) for op, _ in w], rng, c, f"{label(module, c)}-{i}"):
                scs.append(sc.json())
        ctx.models[-1].update(transitions=total, transitions_executed=len({(a, e) for a, e in steps(start, walks)}),
                              calls=sum(len(w) for w in walks))
        for i in range(0, len(scs), 400):
            check_scenarios(ctx, scs[i:i + 400], label(module, c))
            if ctx.violations:
                return
    part.__name__ = "tour " + module
    return part


def steps(start, walks):
    for w in walks:
        at = start
        for e in w:
            yield at, e
            at = e[1]


def control(module, consts, invariant):
    """a part that checks that a model with a known defect is found to be defective"""
    def part(ctx):
        t = tlc(module, ctx.work, cfg=config(ctx, module, consts), timeout=300, workers=1)
        if t.ok or f"Invariant {invariant} is violated" not in t.out:
            raise CheckError(f"the defect of {label(module, consts)} was not found:\n{t.tail()}")
        ctx.models.append({"module": module, "cfg": label(module, consts), "defect_found_by": invariant,
                           "wall_s": round(t.wall, 1)})
    part.__name__ = "control " + module
    return part


# ------------------------------------------------------------- scenarios of the models

SCALES = [(1.0, 0.0), (0.5, -2.0), (1e6, -3e6), (2.0**-40, 7.0)]


def order_walk(kind, mode):
    """walks of AVL and LLRB"""
    shape = mode == "shape"

    def scenario(walk, rng, consts, sid):
        # renderings have six decimals
        a, b = rng.choice(SCALES[:2] if shape else SCALES)
        sc = Sc(sid).new("o", kind)
        vals = [a * v + b for v in range(0, 2 + max([op[1] for op in walk if len(op) > 1], default=1))]
        ask = questions(sc, rng, mode, vals)
        for op in walk:
            if op[0] == "clear":
                sc.clear("o")
            else:
                sc.op(op[0], "o", x=vals[op[1]])
            if shape:
                sc.op("shape" if kind == "AVL" else "render", "o")
            else:
                ask()
        yield sc
    return scenario


def questions(sc, rng, mode, vals):
    """what is asked after every call: everything, or always the same"""
    vals = vals + [vals[1] + (vals[1] - vals[0]) / 2]
    same = rng.random() < (0.6 if mode == "twice" else 0.3)
    k, x = rng.randint(0, 3), rng.choice(vals)

    def ask():
        if same and rng.random() < 0.85:
            for op, kw in rng.sample([("select", {"i": k}), ("rank", {"x": x})], rng.randint(1, 2)):
                for _ in range(rng.randint(1, 2)):
                    sc.op(op, "o", **kw)
            return
        for _ in range(2 if mode == "twice" else 1):
            rng.shuffle(vals)
            sc.op("snap", "o", xs=vals, i=rng.randint(0, 9))
    return ask


def skip_walk(mode):
    """walks of SkipList; a scripted random source makes the levels"""
    shape = mode == "shape"

    def scenario(walk, rng, consts, sid):
        p = rng.choice([0.25, 0.5, 0.75, 0.1])
        levels = [op[2] for op in walk if op[0] == "add"]
        script = [p ** (l - 1) * (1 + p) / 2 for l in levels]
        # the rendering of a negative value is ambiguous
        a, b = rng.choice([(1.0, 0.0), (0.5, 2.0)] + ([] if shape else [(1e6, -3e6), (2.0**-40, 7.0)]))
        sc = Sc(sid).new("o", "Skip", opts=[{"t": "max", "v": consts.get("L", 3)}, {"t": "p", "p": p},
                                            {"t": "script", "script": script or [0.5]}])
        vals = [a * v + b for v in range(0, 2 + max([op[1] for op in walk if len(op) > 1], default=1))]
        ask = questions(sc, rng, mode, vals)
        for op in walk:
            if op[0] == "clear":
                sc.clear("o")
            else:
                sc.op(op[0], "o", x=vals[op[1]])
            if shape:
                sc.op("render", "o")
            else:
                ask()
        yield sc
    return scenario


def window_walk(kinds):
    """walks of MonoDeque and TwoHeaps, with a read after every call"""
    def scenario(walk, rng, consts, sid):
        a, b = rng.choice(SCALES)
        sc = Sc(sid)
        w = consts["W"]
        for kind in kinds:
            sc.new(kind, kind, w=w, glob=w == 0 and rng.random() < 0.5)
        for op in walk:
            for kind in kinds:
                if op[0] == "clear":
                    sc.clear(kind)
                else:
                    # what is true of the minimum of x is true of the maximum of -x
                    sc.push(kind, (-a if kind == "Max" else a) * op[1] + b)
                sc.val(kind)
        yield sc
    return scenario


TOPS = [None, [6], [8], [4], [2, 2], [1, 3], [1, 1, 2]]     # of Incremental!Spaces


def core_walk(walk, rng, consts, sid):
    """walks of Incremental: a core and the metrics of its package, read after every call"""
    top = TOPS[consts.get("Space", 1)]
    w, d = consts.get("W", 3), consts.get("Decay", 0) / 10
    joint = len(top) > 1
    sc = Sc(sid)
    cfg = {"dom": "joint" if joint else "moment", "w": w, "sums": [top]}
    if d:
        cfg["d"] = d
    sc.op("newcore", "c", cfg=cfg)
    os_ = []

    def metric(kind, **kw):
        if d:
            kw["d"] = d
        else:
            kw["w"] = w
        sc.new(f"m{len(os_)}", kind, **kw)
        os_.append(f"m{len(os_)}")
    if not joint:
        if d:
            metric("EWMA")
            metric("EWMStd")
            metric("EWMMoment", k=top[0])
        else:
            for kind in ["Mean", "Std", "Skewness", "Kurtosis"]:
                metric(kind)
            metric("Moment", k=rng.randint(2, top[0]))
    elif len(top) == 2:
        for kind in ["EWMCov", "EWMCorr"] if d else ["Cov", "Corr"]:
            metric(kind)
    tuples = [list(t) for t in itertools.product(*[range(k + 1) for k in top]) if any(t)]
    a, b = rng.choice([(1.0, 0.0), (1.0, 0.0), (0.5, -2.0), (3.0, 1000.0), (2.0**-20, 0.0)])
    for op in walk:
        for o in ["c"] + os_:
            if op[0] == "clear":
                sc.clear(o)
            else:
                sc.push(o, *[a * x + b for x in op[1]])
        for t in tuples:
            sc.op("sum", "c", ks=t)
        for i in range(len(top)):
            sc.op("mean", "c", i=i)
        for o in os_:
            sc.val(o)
    yield sc


def heap_walk(walk, rng, consts, sid):
    """walks of IndexedHeap"""
    a, b = rng.choice(SCALES)
    sc = Sc(sid)
    for o, f in [("min", 1), ("max", -1)]:
        sc.op("hnew", o, cmp=o, xs=[])
        for op in walk:
            if op[0] == "hpop":
                sc.op("hpop", o)
            elif op[0] == "hremove":
                sc.op("hremove", o, item=f"i{op[1]}")
            else:
                sc.op(op[0], o, item=f"i{op[1]}", x=f * (a * op[2] + b))
            sc.op("hlen", o)
            sc.op("hvalues", o)
    yield sc


# ------------------------------------------------------------ exhaustive behaviours

CHUNK = 1500         # scenarios that are validated at once

def triple(x):
    """a finite float in the notation of traces"""
    m, e = x.as_integer_ratio()
    e = -(e.bit_length() - 1)
    s = -1 if m < 0 else 1
    m = abs(m)
    while m >= 1 << 53:
        m //= 2
        e += 1
    return [s * (m >> 27), s * (m & (1 << 27) - 1), e]


def event(op):
    """the event of a successful constructor, push or clear"""
    e = {"op": op["op"], "o": op.get("o", ""), "r": {"k": "ok"}}

    def opts(os_):
        return [{"t": o["t"], "v": o.get("v", 0), "p": {"k": "num", "v": triple(float(o.get("p", 0)))},
                 "sopts": opts(o.get("sopts", []))} for o in os_]
    if op["op"] == "new":
        e.update(kind=op["kind"], w=op.get("w", 0), kk=op.get("k", 0), lag=op.get("lag", 0), name=op["o"],
                 d={"k": "num", "v": triple(float(op.get("d", 0)))}, opts=opts(op.get("opts", [])),
                 init=not op.get("noinit", False), members=op.get("members", []), mode=op.get("mode", ""), size=0)
    elif op["op"] == "newcore":
        c = op["cfg"]
        unset = {"set": False, "v": 0}

        def val(k):
            return {"set": True, "v": c[k]} if k in c else unset
        d = {"set": True, "v": {"k": "num", "v": triple(float(c["d"]))}} if "d" in c else unset
        e["cfg"] = {"dom": c["dom"], "sums": c["sums"], "w": val("w"), "vars": val("vars"), "d": d}
    elif op["op"] == "attach":
        e["core"] = op["core"]
    elif op["op"] == "push":
        e["xs"] = [triple(float(x)) for x in op["xs"]]
    elif op["op"] != "clear":
        raise ValueError(op["op"])
    return e


def behaviours(groups, quick, thorough, per=None):
    """A part of a check: all histories of groups of objects.  A group is a tuple of a name, the calls that make
    the objects, the steps (lists of calls) and the calls after every step, whose results TLC validates.  quick
    and thorough are the lengths of the histories; at most `per` of a group are executed by a quick run."""
    def part(ctx):
        deep = ctx.tier == "thorough"
        scs = []
        for name, setup, steps_, reads in groups:
            rng = random.Random(f"{ctx.seed}/behaviours/{name}")
            hists = histories(ctx, name, setup, steps_, thorough if deep else quick)
            ctx.models[-1]["behaviours"] = len(hists)
            if per and not deep and len(hists) > per:
                hists = rng.sample(hists, per)
            ctx.models[-1]["behaviours_executed"] = len(hists)
            for i, h in enumerate(hists):
                sc = Sc(f"{name}-{i}")
                sc.ops = list(setup)
                for k in h:
                    sc.op("all", ops=list(steps_[k - 1]) + list(reads))
                scs.append(sc.json())
        for i in range(0, len(scs), CHUNK):
            check_scenarios(ctx, scs[i:i + CHUNK], "behaviours")
            if ctx.violations:
                return
    part.__name__ = "behaviours"
    return part


def histories(ctx, name, setup, steps_, depth):
    path = os.path.join(ctx.work, "setup.json")
    with open(path, "w") as f:
        json.dump({"depth": depth, "setup": [event(op) for op in setup],
                   "alphabet": [[event(op) for op in s] for s in steps_]}, f)
    t = tlc("Behaviours", ctx.work, env={"SETUP": path}, timeout=600)
    if not t.ok:
        raise CheckError(f"model Behaviours ({name}) does not hold:\n{t.tail()}")
    ctx.count(t)
    ctx.models.append({"module": "Behaviours", "cfg": f"{name}, depth {depth}", "distinct": t.distinct,
                       "generated": t.generated, "wall_s": round(t.wall, 1)})
    hs = [parse(line[6:-1]) for line in t.out.split("\n") if line.startswith('"HIST|')]
    if len(hs) != len(steps_) ** depth:
        raise CheckError(f"{len(hs)} histories of {name}")
    return sorted(hs)


def merges(groups):
    """A part of a check: cores of merged configurations.  A group is a tuple of a domain, what makes a list of
    configurations or metrics, the numbers of them that are merged by quick and thorough runs, and the number of
    merges that a quick run executes."""
    def part(ctx):
        deep = ctx.tier == "thorough"
        scs, known = [], []
        for g, (dom, make, quick, thorough, per) in enumerate(groups):
            rng = random.Random(f"{ctx.seed}/merges/{g}")
            pool = make()
            path = os.path.join(ctx.work, "setup.json")
            with open(path, "w") as f:
                json.dump({"depth": thorough if deep else quick,
                           "pool": [{"cfg": event(dict(x, op="newcore"))["cfg"]} if "cfg" in x
                                    else {"new": event(x["new"])} for x in pool]}, f)
            t = tlc("Merge", ctx.work, env={"SETUP": path}, timeout=600)
            if not t.ok:
                raise CheckError(f"model Merge ({dom}) does not hold:\n{t.tail()}")
            ctx.count(t)
            froms = sorted(parse(line[6:-1]) for line in t.out.split("\n") if line.startswith('"FROM|'))
            if len(froms) < len(pool):
                raise CheckError(f"{len(froms)} merges")
            ctx.models.append({"module": "Merge", "cfg": f"{len(pool)} of {dom}, {g}", "distinct": t.distinct,
                               "generated": t.generated, "wall_s": round(t.wall, 1), "behaviours": len(froms)})
            pick = [f for f in froms if not mixed([pool[k - 1] for k in f])]
            both = [f for f in froms if len(f) == 2 and mixed([pool[k - 1] for k in f])]
            known += [merge_scenario(f"mixed-{g}-{i}", dom, [pool[k - 1] for k in f], rng).json()
                      for i, f in enumerate(both)]
            froms = pick
            if not deep and len(froms) > per:
                froms = rng.sample(froms, per)
            elif len(froms) > 12000:
                froms = rng.sample(froms, 12000)
            ctx.models[-1]["behaviours_executed"] = len(froms)
            scs += [merge_scenario(f"merge-{g}-{i}", dom, [pool[k - 1] for k in f], rng).json()
                    for i, f in enumerate(froms)]
        for i in range(0, len(scs), CHUNK):
            check_scenarios(ctx, scs[i:i + CHUNK], "merges")
            if ctx.violations:
                return
        if known:
            check_scenarios(ctx, known, "mixed", known=unweighted)
    part.__name__ = "merges"
    return part


def mixed(srcs):
    """Is this a merge of exponentially weighted metrics and of global ones that are not?"""
    return len({"d" in x["new"] for x in srcs if "new" in x and not x["new"].get("w")}) == 2 and \
        all("new" in x and not x["new"].get("w") for x in srcs)


def unweighted(tr, pos):
    """the finding about metrics that are not weighted, and share a core with weighted ones"""
    ev = tr["ev"][pos - 1]
    made = {e["o"]: e["kind"] for e in tr["ev"] if e["op"] == "new"}
    if ev["op"] == "val" and tr["id"].startswith("mixed-") and ev["r"]["k"] in ("num", "err") and \
            not made[ev["o"]].startswith("EWM"):
        return "unweighted-on-weighted-core"
    return None


def merge_scenario(sid, dom, srcs, rng):
    """a merge and what a core of the result answers; the scenario ends where something is refused"""
    sc = Sc(sid)
    ms = [k for k, x in enumerate(srcs) if "new" in x]
    for k in ms:
        sc.ops.append(dict(srcs[k]["new"], o=f"m{k}"))
    sc.op("merge", "mc", mode=dom, **{"from": [{"o": f"m{k}"} if k in ms else {"cfg": x["cfg"]}
                                               for k, x in enumerate(srcs)]})
    sc.op("newcore", "c", cfgref="mc")
    for k in ms:
        sc.op("attach", f"m{k}", core="c")
    sums = [t for x in srcs if "cfg" in x for t in x["cfg"]["sums"]]
    vs = [x["cfg"]["vars"] for x in srcs if "vars" in x.get("cfg", {})]
    v = 1 if dom == "moment" else (vs + [len(t) for t in sums] + [2])[0]
    for x in (1.0, -2.5, 4.0, 0.5)[:rng.randint(2, 4)]:
        sc.push(rng.choice([f"m{k}" for k in ms] + ["c"]), *[x * (j + 1) + j for j in range(v)])
    for k in sorted(ms, key=lambda k: "d" not in srcs[k]["new"]):
        sc.val(f"m{k}")
    sc.op("count", "c")
    if not ms:
        sc.op("mean", "c", i=0)
    top = [max([t[j] for t in sums if len(t) == v] + [1]) + 1 for j in range(v)]
    for ks in itertools.product(*[range(t + 1) for t in top]):
        if ks != (0,):
            sc.op("sum", "c", ks=list(ks))
    return sc


def new(o, kind, **kw):
    return dict({"op": "new", "o": o, "kind": kind}, **kw)


def each(os_, op, **kw):
    return [dict({"op": op, "o": o}, **kw) for o in os_]


def windows_group(name, kinds, windows, values, qs=(), extra=None):
    """metrics of all kinds and windows; a step pushes the same observation to all of them, or clears them"""
    setup, os_, reads = [], [], []
    for kind, p in kinds:
        for w in windows:
            o = f"{kind}{len(os_)}"
            os_.append(o)
            setup.append(new(o, kind, **dict(p, **({} if w is None else {"w": w}))))
            reads += [{"op": "val", "o": o, "q": q} for q in (qs if kind == "Quantile" else [0.5])]
    steps_ = [each(os_, "push", xs=x) for x in values] + [each(os_, "clear")] + (extra(os_) if extra else [])
    return (name, setup, steps_, reads)
