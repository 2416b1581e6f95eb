"""Scenario generators: sequences of calls for the real library, by property.

A scenario only has calls and arguments, never expected results: what a call may
return is decided by the specification (spec/Metric.tla).
"""
import itertools
import math
import random

WINDOWS = [1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 31, 33, 40]
UNI = ["Mean", "Std", "Skewness", "Kurtosis", "Moment"]
EWUNI = ["EWMA", "EWMMoment", "EWMStd"]
EWJ = ["EWMCov", "EWMCorr"]
IMPLS = [0, 1, 2]
INTERPS = [0, 1, 2, 3, 4]
DECAYS = [0.5, 0.25, 0.125, 0.75, 0.1, 0.3, 0.9, 0.05, 0.99, 0.01, 1 / 3, 0.7]


class Sc:
    """A scenario under construction."""

    def __init__(self, sid):
        self.id = sid
        self.ops = []

    def op(self, op, o="", **kw):
        d = {"op": op}
        if o != "":
            d["o"] = o
        d.update(kw)
        self.ops.append(d)
        return self

    def new(self, o, kind, **kw):
        return self.op("new", o, kind=kind, **kw)

    def push(self, o, *xs, **kw):
        return self.op("push", o, xs=list(xs), **kw)

    def pushn(self, o, xss):
        return self.op("pushn", o, xss=xss)

    def val(self, o, q=None):
        return self.op("val", o) if q is None else self.op("val", o, q=q)

    def clear(self, o):
        return self.op("clear", o)

    def json(self):
        return {"id": self.id, "ops": self.ops}


STYLES = ["dups", "dups", "quarters", "floats", "floats", "offset", "asc", "desc", "skewed",
          "alternate", "plateau", "signs", "mixedscale", "zigzag"]


def stream(rng, n, style=None):
    """n values of a style."""
    style = style or rng.choice(STYLES)
    if style == "dups":
        m = rng.choice([1, 2, 3, 5])
        return [float(rng.randint(0, m)) for _ in range(n)]
    if style == "quarters":
        return [rng.randint(-40, 40) / 4 for _ in range(n)]
    if style == "floats":
        s = rng.choice([1, 10, 1000, 1e-3])
        return [rng.uniform(-s, s) for _ in range(n)]
    if style == "offset":
        b = rng.choice([100, 1e4, 1e6, -1e5])
        return [b + rng.randint(-20, 20) / 4 for _ in range(n)]
    if style == "asc":
        x, out = rng.uniform(-5, 5), []
        for _ in range(n):
            x += rng.choice([0, 0.5, 1, 2])
            out.append(x)
        return out
    if style == "desc":
        return [-x for x in stream(rng, n, "asc")]
    if style == "skewed":
        return [rng.choice([0.0, 0.0, 0.5, 1.0, 1.5]) if rng.random() < 0.85 else rng.choice([9.0, 25.0, -16.0])
                for _ in range(n)]
    if style == "alternate":
        a, b = rng.randint(-9, 9), rng.randint(-9, 9)
        return [float(a if i % 2 else b) + rng.choice([0, 0, 0.25]) for i in range(n)]
    if style == "plateau":
        out, x = [], 0.0
        for _ in range(n):
            if rng.random() < 0.3:
                x = rng.randint(-6, 6) / 2
            out.append(x)
        return out
    if style == "signs":
        return [rng.choice([-3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 3.0]) for _ in range(n)]
    if style == "mixedscale":
        return [rng.choice([1, 16, 256]) * rng.randint(-8, 8) / 8 for _ in range(n)]
    if style == "scaled":      # of another order of magnitude
        return scaled(rng, stream(rng, n), 60)
    if style == "zigzag":
        return [float((i % 2 * 2 - 1) * (i // 2 + rng.choice([0, 1]))) for i in range(n)]
    raise ValueError(style)


def scaled(rng, xs, k):
    """values of another order of magnitude, and sign"""
    a = math.ldexp(rng.choice([1, -1, 1]), rng.randint(-k, k))
    return [a * x for x in xs]


def length(rng, w, big=False):
    """a number of pushes that is interesting for a window"""
    if w == 0:
        return rng.choice([1, 2, 3, 5, 8, 13, 20, 40] + ([120] if big else []))
    return rng.choice([w - 1, w, w + 1, w + 2, 2 * w, 2 * w + 1, 3 * w + 2, w + rng.randint(0, 12)])


def windowed(rng, kind):
    """parameters of a metric with a window: w, and glob if it is global"""
    if rng.random() < 0.22:
        return {"w": 0, "glob": rng.random() < 0.6}
    return {"w": rng.choice(WINDOWS)}


def qopts(rng, impl=None, interp=None):
    out = []
    if impl is None:
        impl = rng.choice(IMPLS)
    sopts = []
    if impl == 2:
        if rng.random() < 0.5:
            sopts.append({"t": "max", "v": rng.choice([1, 2, 3, 4, 6, 12, 20, 64])})
        if rng.random() < 0.6:
            sopts.append({"t": "p", "p": rng.choice([0.1, 0.25, 0.5, 0.75, 0.9])})
        sopts.append({"t": "rand", "v": rng.randint(1, 10**6)})
        rng.shuffle(sopts)
    if impl != 0 or rng.random() < 0.5:
        out.append({"t": "impl", "v": impl, "sopts": sopts})
    if interp is not None:
        out.append({"t": "interp", "v": interp})
    rng.shuffle(out)
    return out


def params(rng, kind):
    """random valid parameters of a metric kind"""
    if kind in EWUNI + EWJ:
        p = {"d": rng.choice(DECAYS) if rng.random() < 0.8 else rng.uniform(0.001, 0.999)}
        if kind == "EWMMoment":
            p["k"] = rng.choice([1, 2, 2, 3, 4, 5, 6])
        return p
    if kind == "Moment":
        return dict(windowed(rng, kind), k=rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]))
    if kind in ("Autocov", "Autocorr"):
        return dict(windowed(rng, kind), lag=rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 12]))
    if kind == "Quantile":
        return dict(windowed(rng, kind), opts=qopts(rng, interp=rng.choice(INTERPS + [None])))
    if kind in ("Median", "IQR"):
        return dict(windowed(rng, kind), opts=qopts(rng, interp=rng.choice(INTERPS + [None, None])))
    return windowed(rng, kind)


def arity(kind):
    return 2 if kind in ("Cov", "Corr", "EWMCov", "EWMCorr") else 1


def quantiles(rng, n=3):
    pool = [0.5, 0.25, 0.75, 0.1, 0.9, 1 / 3, 2 / 3, 0.01, 0.99, 0.125, 0.375, 0.6, 1e-9, 1 - 1e-9,
            0.2, 0.4, 0.8, 0.3, 0.7]
    return [rng.choice(pool) if rng.random() < 0.8 else rng.random() or 0.5 for _ in range(n)]


def vec_stream(rng, n, vars_):
    """n observations of several variables, sometimes correlated"""
    cols = [stream(rng, n) for _ in range(vars_)]
    if vars_ == 2 and rng.random() < 0.08:
        cols = [scaled(rng, c, 40) for c in cols]
    if vars_ > 1 and rng.random() < 0.4:
        a = rng.choice([1, -1, 0.5, 2])
        cols[1] = [a * x + rng.choice([0, 0, 0.25, -0.5]) for x in cols[0]]
    return [list(t) for t in zip(*cols)]


def use(sc, rng, o, kind, p, n=None, pread=0.5, pclear=0.04, style=None, read_empty=True):
    """pushes, reads and clears of one metric"""
    if n is None:
        n = length(rng, p.get("w", 0)) if "d" not in p else rng.choice([1, 2, 3, 5, 8, 13, 21, 34])
        n += p.get("lag", 0)
        if rng.random() < 0.3:
            n += length(rng, p.get("w", 0) or 6)
    if arity(kind) == 2:
        data = vec_stream(rng, n, 2)
    else:
        data = [[x] for x in stream(rng, n, style)]

    fixed = quantiles(rng, rng.choice([1, 1, 2])) if rng.random() < 0.35 else None

    def read():
        if kind == "Quantile":
            for q in fixed or quantiles(rng, rng.choice([1, 2, 4])):
                sc.val(o, q)
        else:
            sc.val(o)

    if read_empty and rng.random() < 0.3:
        read()
    for x in data:
        if rng.random() < pclear:
            sc.clear(o)
            if rng.random() < 0.5:
                read()
        sc.push(o, *x)
        if rng.random() < pread:
            read()
    read()


def metric_scenarios(kinds, rng, n, prefix, **kw):
    for i in range(n):
        kind = kinds[i % len(kinds)]
        p = params(rng, kind)
        sc = Sc(f"{prefix}-{kind}-{i}")
        sc.new("m", kind, **p)
        use(sc, rng, "m", kind, p, **kw)
        yield sc


# ----------------------------------------------------------------- cores

def core_cfg(rng, dom, ew=False, vars_=None, maxk=5):
    cfg = {"dom": dom}
    if ew:
        cfg["w"] = 0
        cfg["d"] = rng.choice(DECAYS)
    else:
        cfg["w"] = 0 if rng.random() < 0.25 else rng.choice(WINDOWS)
    if dom == "moment":
        cfg["sums"] = [[k] for k in rng.sample(range(1, maxk + 2), rng.randint(0, 3))]
        return cfg
    v = vars_ or rng.choice([2, 2, 3, 3, 4])
    tuples = []
    for _ in range(rng.randint(1, 4)):
        t = [rng.choice([0, 0, 1, 1, 2, 3] if v < 4 else [0, 0, 1, 1, 2]) for _ in range(v)]
        if sum(t) == 0:
            t[rng.randrange(v)] = 1
        tuples.append(t)
    cfg["sums"] = tuples
    if rng.random() < 0.5:
        cfg["vars"] = v
    return cfg


def core_vars(cfg):
    if cfg["dom"] == "moment":
        return 1
    return cfg.get("vars") or len(cfg["sums"][0])


def below(t):
    return [list(x) for x in itertools.product(*[range(k + 1) for k in t])]


def core_reads(sc, rng, o, cfg, few=True):
    """reads of tracked things"""
    u = rng.random() < 0.2
    kw = {"unsafe": True} if u else {}
    sc.op("count", o, **kw)
    v = core_vars(cfg)
    sc.op("mean", o, i=rng.randrange(v), **kw)
    if cfg["dom"] == "moment":
        top = max([t[0] for t in cfg["sums"]], default=0)
        ks = [[k] for k in range(1, top + 1)]
    else:
        ks = [k for t in cfg["sums"] for k in below(t) if sum(k) > 0]
    if few and len(ks) > 4:
        ks = rng.sample(ks, 4)
    for k in ks:
        sc.op("sum", o, ks=k, **kw)


def core_scenarios(dom, rng, n, prefix, ew=False, pread=0.25, pclear=0.04, mut=False):
    for i in range(n):
        cfg = core_cfg(rng, dom, ew)
        sc = Sc(f"{prefix}-core-{i}")
        sc.op("newcore", "c", cfg=cfg)
        cnt = rng.choice([2, 3, 5, 8, 13, 21]) if ew else length(rng, cfg["w"])
        if dom == "joint" and sum(len(below(t)) for t in cfg["sums"]) > 60:
            cnt = min(cnt, 20)
        if rng.random() < 0.3:
            core_reads(sc, rng, "c", cfg)
        for x in vec_stream(rng, cnt, core_vars(cfg)):
            if rng.random() < pclear:
                sc.op(rng.choice(["clear", "clear", "uclear"]), "c")
            kw = {"unsafe": True} if rng.random() < 0.2 else {}
            if mut:
                kw["mut"] = True
            sc.push("c", *x, **kw)
            if rng.random() < pread:
                core_reads(sc, rng, "c", cfg)
        core_reads(sc, rng, "c", cfg, few=False)
        yield sc


# ------------------------------------------------------- order structures

ORDER = ["AVL", "RB", "Skip"]


def order_params(rng, kind):
    if kind != "Skip":
        return {}
    opts = []
    if rng.random() < 0.6:
        opts.append({"t": "max", "v": rng.choice([1, 2, 3, 4, 8, 12, 16, 64])})
    if rng.random() < 0.6:
        opts.append({"t": "p", "p": rng.choice([0.1, 0.25, 0.5, 0.75, 0.9])})
    opts.append({"t": "rand", "v": rng.randint(1, 10**6)})
    return {"opts": opts}


def order_reads(sc, rng, o, held, full=False):
    sc.op("size", o)
    n = len(held)
    idx = range(-1, n + 1) if full else [rng.randint(-2, n + 1), rng.randint(0, max(0, n - 1))]
    for i in idx:
        sc.op("select", o, i=i)
    vals = sorted(set(held))
    if full:
        xs = vals + [v + 0.25 for v in vals] + [-1e9]
    else:
        xs = [rng.choice(vals) if vals and rng.random() < 0.7 else rng.randint(-5, 40) / 2]
    for x in xs:
        sc.op("rank", o, x=x)


def order_scenarios(rng, n, prefix, size=40, pread=0.3, render=0.0, kinds=ORDER, grow=0.6):
    for i in range(n):
        kind = kinds[i % len(kinds)]
        sc = Sc(f"{prefix}-{kind}-{i}")
        sc.new("s", kind, **order_params(rng, kind))
        held = []
        universe = rng.choice([3, 8, 20, 1000])
        # often the same question
        same = [("select", {"i": rng.choice([0, 0, 1, 2, 3, 5, 8])}), ("rank", {"x": rng.randint(0, universe) / 2})]
        same = [[], [], same[:1], same[1:], same][rng.randrange(5)]
        g = grow
        for step in range(size):
            if rng.random() < 0.02:
                sc.clear("s")
                held = []
            if step % 16 == 15:
                g = rng.choice([0.3, 0.5, 0.6, 0.9])
            if not held or rng.random() < g:
                x = rng.randint(0, universe) / 2 if rng.random() < 0.7 else float(step)
                sc.op("add", "s", x=x)
                held.append(x)
            elif rng.random() < 0.15:
                x = rng.randint(0, universe) / 2 + 0.25
                if rng.random() < 0.3:
                    x = rng.randint(-3, universe) / 2
                sc.op("remove", "s", x=x)
                if x in held:
                    held.remove(x)
            else:
                x = rng.choice(held)
                sc.op("remove", "s", x=x)
                held.remove(x)
            if same and rng.random() < max(pread, 0.7):
                for op, kw in same:
                    sc.op(op, "s", **kw)
            elif rng.random() < pread:
                order_reads(sc, rng, "s", held)
            if rng.random() < render:
                sc.op("shape" if kind == "AVL" else "render", "s")
        order_reads(sc, rng, "s", held, full=True)
        if render:
            sc.op("shape" if kind == "AVL" else "render", "s")
        # down to nothing
        rng.shuffle(held)
        for j, x in enumerate(list(held)):
            sc.op("remove", "s", x=x)
            if j % 5 == 0:
                order_reads(sc, rng, "s", held[j + 1:])
                if render:
                    sc.op("shape" if kind == "AVL" else "render", "s")
        sc.op("size", "s")
        sc.op("add", "s", x=1.5)
        order_reads(sc, rng, "s", [1.5], full=True)
        yield sc


def big_order(rng, prefix, n, kinds=ORDER, patterns=("asc", "desc", "rand", "zig"), opts=None):
    """large structures, for shape"""
    for kind in kinds:
        for pat in patterns:
            sc = Sc(f"{prefix}-{kind}-{pat}-{n}")
            p = {"opts": opts} if opts and kind == "Skip" else order_params(rng, kind)
            sc.new("s", kind, **p)
            if pat == "asc":
                xs = [float(i) for i in range(n)]
            elif pat == "desc":
                xs = [float(n - i) for i in range(n)]
            elif pat == "zig":
                xs = [float(i if i % 2 else n - i) for i in range(n)]
            else:
                xs = [float(rng.randint(0, 2 * n)) for _ in range(n)]
            held = []
            marks = {1, 2, 3, 7, 8, 15, 16, 31, 33, 64, n // 2, n - 1}
            for i, x in enumerate(xs):
                sc.op("add", "s", x=x)
                held.append(x)
                if i in marks:
                    sc.op("shape" if kind == "AVL" else "render", "s")
            order_reads(sc, rng, "s", held)
            # remove from one side, and from all over
            side = rng.choice(["front", "back", "rand"])
            if side == "front":
                held.sort()
            elif side == "back":
                held.sort(reverse=True)
            else:
                rng.shuffle(held)
            k = n * 3 // 4
            for i in range(k):
                sc.op("remove", "s", x=held[i])
                if i in marks or i == k - 1:
                    sc.op("shape" if kind == "AVL" else "render", "s")
            order_reads(sc, rng, "s", held[k:])
            yield sc


# ------------------------------------------------------- large histories

BIGW = [32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024]


def cuts(rng, n, w, k):
    """about k positions in 1..n, most of them around multiples of the window"""
    at = {n}
    for _ in range(k):
        if w and rng.random() < 0.6:
            at.add(rng.choice([1, 2, 3]) * w + rng.randint(-1, 2))
        else:
            at.add(rng.randint(1, n))
    return sorted(c for c in at if 1 <= c <= n)


def large_params(rng, kind, wmax=1024):
    p = params(rng, kind)
    if "w" in p:
        p.pop("glob", None)
        p["w"] = rng.choice([w for w in BIGW if w <= wmax])
        if rng.random() < 0.2:
            p["w"], p["glob"] = 0, rng.random() < 0.5
    if "lag" in p:
        p["lag"] = rng.choice([13, 16, 17, 31, 32, 64, 100, 128, 300])
    if "d" in p:
        p["d"] = rng.choice([0.5, 0.25, 0.125, 2.0**-6, 2.0**-10, 1 - 2.0**-5])
    if "k" in p:
        p["k"] = rng.choice([1, 2, 3, 4])
    return p


def large_values(rng, n, vars_, kind):
    # few digits, to keep the exact arithmetic short
    def col():
        style = rng.choice(["quarters", "dups", "asc", "desc", "plateau", "signs", "zigzag", "mixedscale"])
        return stream(rng, n, style)
    return [list(t) for t in zip(*[col() for _ in range(vars_)])]


def large_scenarios(kinds, rng, n, prefix, wmax=1024, nmax=2600, reads=6):
    """windows of hundreds of observations, and histories of thousands"""
    for i in range(n):
        kind = kinds[i % len(kinds)]
        p = large_params(rng, kind, wmax)
        sc = Sc(f"{prefix}-large-{kind}-{i}").new("m", kind, **p)
        w, lag = p.get("w", 0), p.get("lag", 0)
        for phase in range(rng.choice([1, 1, 2])):
            if "d" in p:
                cnt = rng.choice([40, 65, 130, 260])
            else:
                cnt = rng.choice([w + 3, 2 * w + 5, 3 * w + 1, 1025, 2100] if w else [130, 257, 1030, 2060])
                cnt = min(cnt, nmax) + lag
            data = large_values(rng, cnt, arity(kind), kind)
            last = 0
            for c in cuts(rng, cnt, w, reads):
                for at in cuts(rng, c - last, 0, 0):
                    sc.pushn("m", data[last:last + at])
                last = c
                if kind == "Quantile":
                    for q in quantiles(rng, 2):
                        sc.val("m", q)
                else:
                    sc.val("m")
            if rng.random() < 0.7:
                sc.clear("m").val("m", 0.5 if kind == "Quantile" else None)
        for x in large_values(rng, 4, arity(kind), kind):
            sc.push("m", *x).val("m", 0.5 if kind == "Quantile" else None)
        yield sc


def marathon(kinds, rng, prefix, tops=(256, 4096, 65536)):
    """histories of tens of thousands of observations, which are read around powers of 2"""
    for kind in kinds:
        for w in [0, rng.choice([1, 2, 3, 4, 5, 8])]:
            p = params(rng, kind)
            p.pop("glob", None)
            tops_ = tops
            if "d" in p:
                if w:
                    continue
                p["d"] = rng.choice([0.5, 0.25, 0.75])
                tops_ = [t for t in tops if t <= 1024] or [1024]
            else:
                p["w"] = w
            if "k" in p:
                p["k"] = rng.choice([2, 3])
            sc = Sc(f"{prefix}-marathon-{kind}-{w}").new("m", kind, **p)
            n = p.get("lag", 0)
            cycle = [[float(rng.randint(-9, 9)) for _ in range(arity(kind))] for _ in range(rng.choice([5, 7, 8, 11]))]
            at = 0

            def go(k):
                nonlocal at
                sc.pushn("m", [cycle[(at + i) % len(cycle)] for i in range(k)])
                at += k
            if n:
                go(n)
            for top in tops_:
                go(top - 2 + n - at)
                for _ in range(4):
                    go(1)
                    sc.val("m", 0.4 if kind == "Quantile" else None)
            sc.clear("m").val("m", 0.4 if kind == "Quantile" else None)
            go(2 + n)
            sc.val("m", 0.4 if kind == "Quantile" else None)
            yield sc


def large_cores(dom, rng, n, prefix, ew=False):
    """large windows, and many variables"""
    for i in range(n):
        cfg = {"dom": dom, "w": 0 if ew else rng.choice([0] + BIGW[:12])}
        if ew:
            cfg["d"] = rng.choice([0.5, 0.25, 2.0**-6])
        if dom == "moment":
            cfg["sums"] = [[k] for k in rng.sample(range(1, 9), 2)]
            v, cnt = 1, 600
        else:
            v = rng.choice([2, 3, 5, 5, 6, 7, 8])
            cfg["vars"] = v
            cfg["sums"] = []
            for _ in range(rng.choice([1, 2, 3])):
                t = [0] * v
                for j in rng.sample(range(v), min(v, rng.choice([1, 2, 3]))):
                    t[j] = rng.choice([1, 1, 2])
                cfg["sums"].append(t)
            cnt = 400 if v < 4 else 60
            if v >= 4 and not ew:
                cfg["w"] = rng.choice([0, 3, 7, 20])
        if ew:
            cnt = min(cnt, 100)
        sc = Sc(f"{prefix}-large-core-{i}").op("newcore", "c", cfg=cfg)
        cnt = min(cnt, 2 * cfg["w"] + 9) if cfg["w"] else rng.choice([cnt, cnt // 2])
        data = large_values(rng, cnt, v, "")
        last = 0
        for c in cuts(rng, cnt, cfg["w"], 4):
            sc.pushn("c", data[last:c])
            last = c
            core_reads(sc, rng, "c", cfg)
            if rng.random() < 0.15:
                sc.clear("c")
        core_reads(sc, rng, "c", cfg, few=v > 3)
        for j in range(v):
            sc.op("mean", "c", i=j)
        yield sc


# values at the ends of the range of floats; only for what compares and does not compute
EDGES = ["inf", "-inf", 1.7976931348623157e308, -1.7976931348623157e308, 1e308, 5e-324, -5e-324, 2.5e-308, 0.0, -0.0,
         1.0, -1.0, 1e300, -1e300, 1 + 2.0**-52, 1.0]


def edge_extremes(rng, n, prefix):
    for i in range(n):
        kind = ["Min", "Max"][i % 2]
        w = rng.choice([0, 1, 2, 3, 4, 6])
        pool = rng.sample(EDGES, rng.randint(2, 6))
        if i % 3 == 1:
            pool = scaled(rng, stream(rng, rng.randint(2, 9)), 1000)
        elif i % 3 == 2:        # around one magnitude, the largest ones more often
            a = rng.choice([1, -1]) * math.ldexp(1, rng.choice([1023, 1023, 1022, -1022, rng.randint(-1000, 1020)]))
            pool = [a * rng.choice([rng.uniform(0.5, 1), rng.uniform(1, 2), 1, 1.5]) for _ in range(rng.randint(2, 7))]
        sc = Sc(f"{prefix}-edge-{kind}-{i}").new("m", kind, w=w, glob=(w == 0 and i % 4 > 1))
        for _ in range(18):
            if rng.random() < 0.08:
                sc.clear("m").val("m")
            sc.push("m", rng.choice(pool)).val("m")
        yield sc


def large_order(rng, prefix, n, size, kinds=ORDER):
    """structures of a thousand values, with reads everywhere"""
    for i in range(n):
        kind = kinds[i % len(kinds)]
        sc = Sc(f"{prefix}-large-{kind}-{i}").new("s", kind, **order_params(rng, kind))
        held = []
        for phase in range(2):
            xs = [abs(x) for x in stream(rng, size, rng.choice(["asc", "desc", "floats", "dups", "zigzag", "quarters"]))]
            for k, x in enumerate(xs):
                sc.op("add", "s", x=x)
                held.append(x)
                if k % 61 == 0:
                    order_reads(sc, rng, "s", held)
            how = rng.choice(["fifo", "rand", "asc", "desc"])
            if how == "rand":
                rng.shuffle(held)
            elif how != "fifo":
                held.sort(reverse=how == "desc")
            keep = rng.choice([0, 1, 2, size // 2])
            for k in range(len(held) - keep):
                sc.op("remove", "s", x=held[k])
                if k % 61 == 0:
                    order_reads(sc, rng, "s", held[k + 1:])
            held = held[len(held) - keep:] if keep else []
            order_reads(sc, rng, "s", held)
            if rng.random() < 0.3:
                sc.clear("s")
                held = []
        yield sc


def edge_order(rng, n, prefix):
    for i in range(n):
        kind = ORDER[i % 3]
        sc = Sc(f"{prefix}-edge-{kind}-{i}").new("s", kind, **order_params(rng, kind))
        pool = rng.sample(EDGES, rng.randint(3, 9))
        if i % 2:
            pool = scaled(rng, stream(rng, rng.randint(3, 12)), 1000)
        held = 0
        for _ in range(30):
            x = rng.choice(pool)
            if rng.random() < 0.6:
                sc.op("add", "s", x=x)
                held += 1
            else:
                sc.op("remove", "s", x=x)
            sc.op("size", "s").op("select", "s", i=rng.randint(0, held)).op("rank", "s", x=rng.choice(pool))
        for k in range(-1, held + 1):
            sc.op("select", "s", i=k)
        yield sc


def large_twin(rng, n, prefix, kinds, wmax=300):
    """a metric that was used and cleared, and a fresh one"""
    for i in range(n):
        kind = kinds[i % len(kinds)]
        p = large_params(rng, kind, wmax)
        if "lag" in p:
            p["lag"] = rng.choice([13, 16, 32, 64])
        w = p.get("w", 0) or 60
        sc = Sc(f"{prefix}-large-{kind}-{i}").new("a", kind, **p)
        for _ in range(rng.choice([1, 2])):
            cnt = rng.choice([w - 1, w, w + 1, 2 * w + 3, w + p.get("lag", 0)]) if "d" not in p else 60
            sc.pushn("a", large_values(rng, cnt, arity(kind), kind))
            for _ in range(rng.choice([1, 2])):
                sc.clear("a")
        sc.new("b", kind, **p)
        twin(sc, ["a", "b"], kind)
        total = (w if "d" not in p else 40) + p.get("lag", 0) + 6
        data = large_values(rng, total, arity(kind), kind)
        last = 0
        for c in cuts(rng, total, w, 5):
            sc.pushn("a", data[last:c]).pushn("b", data[last:c])
            last = c
            twin(sc, ["a", "b"], kind, rng.choice(quantiles(rng)))
        yield sc


# --------------------------------------------------------------- by property

def c01(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(UNI, rng, 100 if big else 15, "c01")
    yield from large_cores("moment", rng, 30 if big else 4, "c01")
    yield from marathon(UNI if big else rng.sample(UNI, 2), rng, "c01")
    yield from metric_scenarios(UNI, rng, 200 if big else 30, "c01-scaled", style="scaled")
    yield from metric_scenarios(UNI, rng, 2500 if big else 260, "c01")
    yield from core_scenarios("moment", rng, 1200 if big else 110, "c01")
    # constant windows after other values: the variance is 0
    for i, kind in enumerate(["Std", "Moment"] * (60 if big else 10)):
        w = rng.choice([2, 3, 4, 5, 7, 10])
        sc = Sc(f"c01-const-{kind}-{i}")
        sc.new("m", kind, w=w, k=2)
        for x in stream(rng, w + 3, rng.choice(["floats", "offset", "mixedscale"])):
            sc.push("m", x)
        c = rng.choice([0.1, 1 / 3, 7.0, 1e5 + 0.1])
        for _ in range(2 * w + 2):
            sc.push("m", c).val("m")
        yield sc


def c02(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(EWUNI, rng, 60 if big else 9, "c02")
    yield from large_cores("moment", rng, 20 if big else 4, "c02", ew=True)
    yield from marathon(EWUNI, rng, "c02", (256, 4096) if big else (256, 1024))
    yield from metric_scenarios(EWUNI, rng, 200 if big else 30, "c02-scaled", style="scaled")
    yield from metric_scenarios(EWUNI, rng, 2000 if big else 240, "c02")
    yield from core_scenarios("moment", rng, 900 if big else 90, "c02", ew=True)


def c03(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(["Cov", "Corr"], rng, 60 if big else 8, "c03")
    yield from large_cores("joint", rng, 80 if big else 14, "c03")
    yield from marathon(["Cov", "Corr"] if big else rng.sample(["Cov", "Corr"], 1), rng, "c03")
    yield from metric_scenarios(["Cov", "Corr"], rng, 1500 if big else 170, "c03")
    yield from core_scenarios("joint", rng, 1300 if big else 150, "c03")
    yield from high_joint(rng, 100 if big else 14, "c03", False)


def high_joint(rng, n, prefix, ew):
    """cores with exponents of 8 to 16 in total"""
    for i in range(n):
        nv = rng.choice([2, 2, 2, 3])
        t = [0] * nv
        for _ in range(rng.randint(8, 16 if nv == 2 else 11)):
            t[rng.randrange(nv)] += 1
        cfg = {"dom": "joint", "w": 0 if ew else rng.choice([0, 2, 3, 5]), "sums": [t]}
        if ew:
            cfg["d"] = rng.choice([0.25, 0.5, 0.1, 0.9])
        sc = Sc(f"{prefix}-high-{i}").op("newcore", "c", cfg=cfg)
        bs = [b for b in below(t) if sum(b) > 0]
        for k in range(rng.randint(4, 7)):
            sc.push("c", *[float(rng.choice([0, 1, 2, 2, 3, -1])) for _ in t])
            if k >= 2 and rng.random() < 0.5:
                sc.op("sum", "c", ks=t)
        for b in [t] + rng.sample(bs, min(10, len(bs))):
            sc.op("sum", "c", ks=b)
        yield sc


def c04(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(EWJ, rng, 50 if big else 6, "c04")
    yield from large_cores("joint", rng, 60 if big else 10, "c04", ew=True)
    yield from marathon(EWJ, rng, "c04", (256, 1024))
    yield from metric_scenarios(EWJ, rng, 1400 if big else 170, "c04")
    yield from core_scenarios("joint", rng, 900 if big else 110, "c04", ew=True)
    yield from high_joint(rng, 100 if big else 14, "c04", True)


def c05(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(["Autocov", "Autocorr"], rng, 80 if big else 12, "c05", wmax=300)
    yield from marathon(["Autocov", "Autocorr"] if big else rng.sample(["Autocov", "Autocorr"], 1), rng, "c05")
    yield from metric_scenarios(["Autocov", "Autocorr"], rng, 200 if big else 30, "c05-scaled", style="scaled")
    yield from metric_scenarios(["Autocov", "Autocorr"], rng, 2500 if big else 260, "c05", pread=0.6)
    i = 0
    for lag in range(0, 9 if big else 5):
        for w in [0, 1, 2, 3, 4, 6, 9][: 7 if big else 6]:
            for kind in ["Autocov", "Autocorr"]:
                sc = Sc(f"c05-grid-{kind}-{lag}-{w}")
                sc.new("m", kind, lag=lag, w=w, glob=(w == 0 and lag % 2 == 0))
                xs = stream(rng, lag + 2 * w + 4)
                for x in xs:
                    sc.val("m").push("m", x)
                sc.val("m").clear("m").val("m")
                # a clear in the middle of filling the lag
                for x in stream(rng, rng.randint(0, lag + 1)):
                    sc.push("m", x).val("m")
                sc.clear("m")
                for x in stream(rng, lag + w + 3):
                    sc.push("m", x).val("m")
                yield sc
                i += 1


def c06(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(["Min", "Max"], rng, 120 if big else 20, "c06", reads=20)
    yield from edge_extremes(rng, 600 if big else 120, "c06")
    yield from marathon(["Min", "Max"], rng, "c06")
    yield from metric_scenarios(["Min", "Max"], rng, 200 if big else 30, "c06-scaled", pread=0.7, style="scaled")
    yield from metric_scenarios(["Min", "Max"], rng, 3000 if big else 420, "c06", pread=0.7)


def huge_quantiles(rng, n, prefix, kinds=("Quantile",)):
    """neighbours whose distance or sum is not a float, although everything in between is"""
    for i in range(n):
        w = rng.choice([0, 2, 3, 5])
        kind = kinds[i % len(kinds)]
        p = {} if kind == "HeapMedian" else {"opts": qopts(rng, i // len(kinds) % 3, INTERPS[i % len(INTERPS)])}
        sc = Sc(f"{prefix}-huge-{kind}-{i}").new("m", kind, w=w, **p)
        tops = [1.7976931348623157e308, 1.5e308, 1e308, 8.98846567431158e307]
        # not of both signs where the distance of values is the result
        sign = rng.choice([-1, 1]) if kind == "IQR" or rng.random() < 0.5 else 0
        for _ in range(3):
            xs = [(sign or s_) * rng.choice(tops) for s_ in [1, -1] + [1] * rng.randint(0, 2)]
            xs += [(sign or 1) * abs(float(x)) for x in stream(rng, rng.randint(0, 2))]
            rng.shuffle(xs)
            for x in xs:
                sc.push("m", x)
                for q in [0.5, rng.random(), 1 / 3] if kind == "Quantile" else [None]:
                    if q is None or 0 < q < 1:
                        sc.val("m", q)
            sc.clear("m")
        yield sc


def c07(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(["Quantile"], rng, 60 if big else 10, "c07", wmax=512, nmax=1100)
    yield from metric_scenarios(["Quantile"], rng, 200 if big else 30, "c07-scaled", style="scaled")
    yield from metric_scenarios(["Quantile"], rng, 2500 if big else 330, "c07", pread=0.35)
    yield from huge_quantiles(rng, 120 if big else 24, "c07")
    yield from marathon(["Quantile"], rng, "c07")
    # q * (n-1) at and around integers and halves
    for i in range(300 if big else 45):
        n = rng.randint(1, 14)
        w = rng.choice([0, n, n + 1, max(1, n - 2)])
        impl, interp = i % 3, (i // 3) % 5
        sc = Sc(f"c07-idx-{i}")
        sc.new("m", "Quantile", w=w, opts=qopts(rng, impl, interp))
        for x in stream(rng, n):
            sc.push("m", x)
        held = n if w == 0 else min(n, w)
        for k in range(0, 2 * (held - 1) + 1):
            if held > 1 and 0 < k < 2 * (held - 1):
                q = k / 2 / (held - 1)
                sc.val("m", q)
                if rng.random() < 0.3:
                    sc.val("m", math.nextafter(q, 0)).val("m", math.nextafter(q, 1))
        for q in [1e-300, 0.5, 1 - 2**-53]:
            sc.val("m", q)
        yield sc
    # long histories in a window with many duplicates
    for i in range(60 if big else 9):
        w = rng.choice([3, 8, 20, 37])
        sc = Sc(f"c07-long-{i}")
        sc.new("m", "Quantile", w=w, opts=qopts(rng, i % 3, rng.choice(INTERPS)))
        for j, x in enumerate(stream(rng, 300 if big else 120, rng.choice(["dups", "quarters", "plateau"]))):
            sc.push("m", x)
            if j % 3 == 0:
                sc.val("m", rng.choice(quantiles(rng)))
        yield sc


def c08(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(["HeapMedian"], rng, 60 if big else 12, "c08", nmax=1600, reads=12)
    yield from huge_quantiles(rng, 60 if big else 12, "c08", ["HeapMedian"])
    yield from marathon(["HeapMedian"], rng, "c08")
    yield from metric_scenarios(["HeapMedian"], rng, 200 if big else 30, "c08-scaled", style="scaled")
    yield from metric_scenarios(["HeapMedian"], rng, 3000 if big else 420, "c08", pread=0.8)
    for i in range(60 if big else 10):
        w = rng.choice([1, 2, 3, 4, 5, 8, 16, 31])
        sc = Sc(f"c08-long-{i}")
        sc.new("m", "HeapMedian", w=w)
        for x in stream(rng, 400 if big else 150):
            sc.push("m", x).val("m")
        yield sc


def c09(rng, tier):
    big = tier == "thorough"
    yield from large_scenarios(["Median", "IQR"], rng, 60 if big else 10, "c09", wmax=512, nmax=1100)
    yield from huge_quantiles(rng, 60 if big else 12, "c09", ["Median", "IQR"])
    yield from marathon(["Median", "IQR"] if big else rng.sample(["Median", "IQR"], 1), rng, "c09")
    yield from metric_scenarios(["Median", "IQR"], rng, 200 if big else 30, "c09-scaled", style="scaled")
    yield from metric_scenarios(["Median", "IQR"], rng, 3000 if big else 400, "c09", pread=0.6)


def c10(rng, tier):
    big = tier == "thorough"
    yield from large_order(rng, "c10", 30 if big else 6, 800 if big else 350)
    yield from edge_order(rng, 120 if big else 24, "c10")
    yield from order_scenarios(rng, 900 if big else 130, "c10", size=60)
    yield from order_scenarios(rng, 60 if big else 6, "c10-big", size=400, pread=0.1, grow=0.7)


def c11(rng, tier):
    big = tier == "thorough"
    yield from order_scenarios(rng, 500 if big else 60, "c11", size=50, pread=0.02, render=0.35)
    for n in ([40, 150, 500] if big else [40, 150]):
        yield from big_order(rng, "c11", n, kinds=["AVL", "RB"])
    for p, mx in [(0.25, None), (0.5, 8), (0.5, None), (0.75, 5), (0.1, 3), (0.9, 20), (0.5, 1), (0.3, 64)]:
        opts = [{"t": "p", "p": p}, {"t": "rand", "v": rng.randint(1, 10**6)}]
        if mx:
            opts.append({"t": "max", "v": mx})
        yield from big_order(rng, f"c11-{p}-{mx}", 1500 if big else 400, kinds=["Skip"], patterns=["rand"], opts=opts)
    yield from big_order(rng, "c11-default", 1500 if big else 600, kinds=["Skip"], patterns=["rand"],
                         opts=[{"t": "rand", "v": rng.randint(1, 10**6)}])


ALLM = UNI + EWUNI + ["Cov", "Corr"] + EWJ + ["Autocov", "Autocorr", "Min", "Max", "Quantile", "Median",
                                              "IQR", "HeapMedian"]


def twin(sc, os_, kind, q=None):
    sc.op("vals", os=os_, **({"q": q} if q is not None else {"q": 0.5}))


def c12(rng, tier):
    big = tier == "thorough"
    yield from large_twin(rng, 100 if big else 20, "c12", ALLM)
    for i in range(1600 if big else 260):
        kind = ALLM[i % len(ALLM)]
        p = params(rng, kind)
        sc = Sc(f"c12-{kind}-{i}")
        sc.new("a", kind, **p)
        n = length(rng, p.get("w", 0)) + p.get("lag", 0)
        for _ in range(rng.choice([1, 1, 2])):
            m = rng.choice([0, 1, n, n + 3, rng.randint(0, n + 1)])
            if arity(kind) == 2:
                data = vec_stream(rng, max(m, 0), 2)
            else:
                data = [[x] for x in stream(rng, max(m, 0))]
            for x in data:
                sc.push("a", *x)
                if rng.random() < 0.1:
                    sc.val("a", 0.3 if kind == "Quantile" else None)
            for _ in range(rng.choice([1, 1, 2])):
                sc.clear("a")
        sc.new("b", kind, **p)
        sc.op("str", "a")
        twin(sc, ["a", "b"], kind)
        data = vec_stream(rng, n + 4, 2) if arity(kind) == 2 else [[x] for x in stream(rng, n + 4)]
        for x in data:
            sc.push("a", *x).push("b", *x)
            if rng.random() < 0.5:
                twin(sc, ["a", "b"], kind, rng.choice(quantiles(rng)))
        twin(sc, ["a", "b"], kind, 0.4)
        yield sc
    # cores
    for i in range(400 if big else 70):
        dom = rng.choice(["moment", "joint"])
        cfg = core_cfg(rng, dom, ew=rng.random() < 0.3)
        sc = Sc(f"c12-core-{i}")
        sc.op("newcore", "c", cfg=cfg)
        v = core_vars(cfg)
        for _ in range(rng.choice([1, 2])):
            for x in vec_stream(rng, min(20, length(rng, cfg["w"])), v):
                sc.push("c", *x)
            sc.op(rng.choice(["clear", "uclear"]), "c")
            core_reads(sc, rng, "c", cfg)
        for x in vec_stream(rng, min(20, length(rng, cfg["w"])), v):
            sc.push("c", *x)
            core_reads(sc, rng, "c", cfg)
        yield sc
    for sc in order_scenarios(rng, 60 if big else 15, "c12", size=25, render=0.1):
        # clears after everything, and again on an empty structure
        sc.clear("s").clear("s").op("size", "s").op("select", "s", i=0).op("rank", "s", x=3.0).op("render", "s")
        held = []
        for x in stream(rng, 20, rng.choice(["dups", "quarters"])):
            x = abs(x)
            sc.op("add", "s", x=x)
            held.append(x)
        order_reads(sc, rng, "s", held, full=True)
        sc.op("render", "s")
        yield sc
    for i in range(120 if big else 24):
        sc = Sc(f"c12-agg-{i}")
        j = i % 2 == 1
        kinds = rng.sample(["Cov", "Corr", "EWMCov", "EWMCorr"] if j else
                           [k for k in ALLM if arity(k) == 1 and k != "Quantile"], 3)
        ps = {f"m{k}": (kind, params(rng, kind)) for k, kind in enumerate(kinds)}
        for o, (kind, p) in ps.items():
            sc.new(o, kind, **p)
        sc.new("agg", "JAgg" if j else "SAgg", members=list(ps))
        for _ in range(2):
            n = rng.randint(0, 12)
            for x in (vec_stream(rng, n, 2) if j else [[y] for y in stream(rng, n)]):
                sc.push("agg", *x)
            sc.val("agg").clear("agg").val("agg")
            for o in ps:
                sc.val(o)
        for x in (vec_stream(rng, 20, 2) if j else [[y] for y in stream(rng, 20)]):
            sc.push("agg", *x)
            sc.val("agg")
        yield sc


def c13(rng, tier):
    big = tier == "thorough"
    bad_q = [0, 1, -0.5, 1.5, "nan", "inf", "-inf", -1e-300, 1.0000000001, 5]
    for i in range(900 if big else 200):
        kind = ALLM[i % len(ALLM)]
        p = params(rng, kind)
        sc = Sc(f"c13-{kind}-{i}")
        uninit = rng.random() < 0.35 and kind in UNI + EWUNI + EWJ + ["Cov", "Corr", "Autocov", "Autocorr"]
        if uninit:
            sc.new("a", kind, noinit=True, **p)
        else:
            sc.new("a", kind, **p)
        sc.new("b", kind, **p)

        def bad(o):
            r = rng.random()
            if kind == "Quantile" and r < 0.6:
                sc.val(o, rng.choice(bad_q))
            elif arity(kind) == 2:
                sc.push(o, *stream(rng, rng.choice([0, 1, 3, 4])))
            sc.val(o, 0.5 if kind == "Quantile" else None)

        if uninit:
            sc.op("isset", "a").val("a")
            x = stream(rng, arity(kind))
            sc.push("a", *x).val("a").clear("a").push("a", *x).op("str", "a").val("a")
            sc.op("init", "a").op("isset", "a").val("a")
        n = length(rng, p.get("w", 0)) + p.get("lag", 0)
        data = vec_stream(rng, n + 2, 2) if arity(kind) == 2 else [[x] for x in stream(rng, n + 2)]
        sc.val("a", 0.5 if kind == "Quantile" else None)
        bad("a")
        for j, x in enumerate(data):
            if rng.random() < 0.4:
                bad("a")
            sc.push("a", *x).push("b", *x)
            if rng.random() < 0.5:
                twin(sc, ["a", "b"], kind, rng.choice(quantiles(rng)))
            if rng.random() < 0.05:
                sc.clear("a").clear("b")
                bad("a")
        twin(sc, ["a", "b"], kind, 0.3)
        sc.clear("a").val("a", 0.5 if kind == "Quantile" else None)
        yield sc
    for i in range(300 if big else 60):
        dom = ["moment", "joint"][i % 2]
        cfg = core_cfg(rng, dom, ew=rng.random() < 0.3)
        sc = Sc(f"c13-core-{i}")
        sc.op("newcore", "c", cfg=cfg)
        v = core_vars(cfg)

        def bad():
            if dom == "joint":
                sc.push("c", *stream(rng, rng.choice([0, 1, v - 1, v + 1, v + 3])))
                sc.op("mean", "c", i=rng.choice([-1, v, v + 5]))
            sc.op("sum", "c", ks=[rng.choice([-1, 0, 40])] if dom == "moment" else [1] * rng.choice([1, v + 1]))
        sc.op("count", "c").op("mean", "c", i=0)
        core_reads(sc, rng, "c", cfg)
        bad()
        for x in vec_stream(rng, min(15, length(rng, cfg["w"])), v):
            sc.push("c", *x)
            if rng.random() < 0.5:
                bad()
            core_reads(sc, rng, "c", cfg)
        sc.clear("c")
        core_reads(sc, rng, "c", cfg)
        yield sc


def c14(rng, tier):
    big = tier == "thorough"
    i = 0
    ws = [-5, -1, 0, 1, 2, 3, 7]
    # limits of narrower integers
    wide = [127, 128, 255, 256, 257, 32767, 32768, 40000, 65535, 65536, 70000, 2**17 + 1]
    deep = [-128, -129, -256, -32768, -65536, -2**31 + 1]
    ds = [0.5, 0, 1, -0.25, 1.5, "nan", "inf", "-inf", 1e-300, 1 - 2**-53, 0.001, 0.999, 2]

    def then_use(sc, kind):
        # an accepted configuration yields a usable metric
        for x in (vec_stream(rng, 4, 2) if arity(kind) == 2 else [[y] for y in stream(rng, 4)]):
            sc.push("m", *x)
        sc.val("m", 0.5 if kind == "Quantile" else None)

    def one(tag, kind, valid, **p):
        sc = Sc(f"c14-{tag}")
        sc.new("m", kind, **p)
        if valid:
            then_use(sc, kind)
        return sc
    for kind in ["Mean", "Std", "Skewness", "Kurtosis", "Cov", "Corr", "Min", "Max", "HeapMedian", "Median",
                 "IQR", "Quantile"]:
        for w in ws + wide + deep:
            yield one(f"{kind}-{w}", kind, w >= 0, w=w)
    for w in ws:
        for k in [-3, -1, 0, 1, 2, 3, 4, 9]:
            yield one(f"Moment-{w}-{k}", "Moment", w >= 0 and k > 0, w=w, k=k)
        for lag in [-4, -1, 0, 1, 2, 5]:
            for kind in ["Autocov", "Autocorr"]:
                yield one(f"{kind}-{w}-{lag}", kind, w >= 0 and lag >= 0, w=w, lag=lag)
    for d in ds:
        ok = not isinstance(d, str) and 0 < d < 1
        for kind in ["EWMA", "EWMStd", "EWMCov", "EWMCorr"]:
            yield one(f"{kind}-{d}", kind, ok, d=d)
        for k in [-1, 0, 1, 2, 5]:
            yield one(f"EWMMoment-{d}-{k}", "EWMMoment", ok and k > 0, d=d, k=k)
    for impl in [-1, 0, 1, 2, 3, 7]:
        for interp in [-1, 0, 1, 2, 3, 4, 5, 9]:
            for kind in ["Quantile", "Median", "IQR"]:
                yield one(f"{kind}-{impl}-{interp}", kind, 0 <= impl <= 2 and 0 <= interp <= 4, w=3,
                          opts=[{"t": "impl", "v": impl}, {"t": "interp", "v": interp}])
    for mx in [-1, 0, 1, 2, 12, 63, 64, 65, 1000]:
        for p in [0, 1, -0.1, 1.1, "nan", "inf", "-inf", 0.25, 0.9999, 1e-12]:
            okp = not isinstance(p, str) and 0 < p < 1
            sopts = [{"t": "max", "v": mx}, {"t": "p", "p": p}]
            rng.shuffle(sopts)
            ok = okp and 1 <= mx <= 64
            sc = Sc(f"c14-skip-{mx}-{p}")
            sc.new("s", "Skip", opts=sopts)
            if ok:
                for x in [3.0, 1.0, 2.0, 1.0]:
                    sc.op("add", "s", x=x)
                sc.op("select", "s", i=1).op("rank", "s", x=2.0).op("remove", "s", x=1.0).op("size", "s")
            yield sc
            for kind in ["Quantile", "Median", "IQR"]:
                yield one(f"{kind}-sk-{mx}-{p}", kind, ok, w=2, opts=[{"t": "impl", "v": 2, "sopts": sopts}])
    for lag in wide + deep:
        for kind in ["Autocov", "Autocorr"]:
            yield one(f"{kind}-lag{lag}", kind, lag >= 0, w=3, lag=lag)
    for k in deep + [-31, -64]:
        yield one(f"Moment-k{k}", "Moment", False, w=3, k=k)
        yield one(f"EWMMoment-k{k}", "EWMMoment", False, d=0.5, k=k)
    for dom in ["moment", "joint"]:
        for w in wide + deep:
            sc = Sc(f"c14-{dom}-w{w}")
            sc.op("newcore", "c", cfg={"dom": dom, "w": w, "sums": [[2]] if dom == "moment" else [[1, 1]]})
            if w >= 0:
                for x in vec_stream(rng, 3, 1 if dom == "moment" else 2):
                    sc.push("c", *x)
                sc.op("count", "c").op("sum", "c", ks=[2] if dom == "moment" else [1, 1])
            yield sc
    # core configurations
    for w in [None, -1, 0, 1, 3]:
        for d in [None, 0.5, 0, 1, "nan", 0.9, -1, 2]:
            for sums in [None, [], [[1]], [[2], [3]], [[0]], [[-1]], [[4], [-2]], [[3], [0]]]:
                cfg = {"dom": "moment", "w": w, "d": d, "sums": sums or [], "nosums": sums is None}
                sc = Sc(f"c14-mcore-{w}-{d}-{sums}")
                sc.op("newcore", "c", cfg=cfg)
                ok = (w is not None and w >= 0 and all(t[0] > 0 for t in sums or []) and
                      (d is None or (d in (0.5, 0.9) and w == 0)))
                if ok:
                    sc.push("c", 1.0).push("c", 4.5).op("count", "c").op("mean", "c", i=0)
                    for k in range(1, 6):
                        sc.op("sum", "c", ks=[k])
                yield sc
    tset = [None, [], [[1, 1]], [[2, 0], [0, 2]], [[0, 0]], [[1, 1], [0, 0]], [[1]], [[1, -1]], [[-1, 1]],
            [[1, 1], [1, 1, 1]], [[1, 1, 1], [1, 1]], [[2, 1, 0]], [[0, 0, 0], [1, 0, 0]], [[3, 0], [1, 2]], [[]],
            [[1, 1], []], [[2, -1, 3]]]
    for w in [None, -1, 0, 2]:
        for d in [None, 0.5, 1, "nan"]:
            for vars_ in [None, -1, 0, 1, 2, 3]:
                for sums in tset:
                    if not big and rng.random() < 0.5 and d in (1, "nan"):
                        continue
                    cfg = {"dom": "joint", "w": w, "d": d, "vars": vars_, "sums": sums or [], "nosums": sums is None}
                    sc = Sc(f"c14-jcore-{w}-{d}-{vars_}-{sums}")
                    sc.op("newcore", "c", cfg=cfg)
                    ss = sums or []
                    ok = (w is not None and w >= 0 and (d is None or (d == 0.5 and w == 0)) and
                          (vars_ is None or vars_ >= 2) and (vars_ is not None or ss) and
                          all(len(t) == len(ss[0]) and len(t) >= 2 and (vars_ is None or len(t) == vars_) and
                              min(t) >= 0 and sum(t) > 0 for t in ss))
                    if ok:
                        v = vars_ or len(ss[0])
                        for x in vec_stream(rng, 3, v):
                            sc.push("c", *x)
                        sc.op("count", "c").op("mean", "c", i=v - 1).op("mean", "c", i=v)
                        for t in ss:
                            sc.op("sum", "c", ks=t)
                    yield sc
    # random configurations
    for i in range(600 if big else 100):
        v = rng.choice([2, 3, 4])
        sums = [[rng.choice([-1, 0, 0, 0, 1, 1, 2]) for _ in range(rng.choice([v, v, v, v, v + 1]))]
                for _ in range(rng.randint(0, 3))]
        cfg = {"dom": "joint", "w": rng.choice([None, -1, 0, 0, 3, 4]), "sums": sums,
               "vars": rng.choice([None, v, v, v + 1]), "d": rng.choice([None, None, 0.5, 1.5])}
        yield Sc(f"c14-rand-{i}").op("newcore", "c", cfg=cfg)


def c15(rng, tier):
    big = tier == "thorough"
    opt = lambda xs: rng.choice(xs)
    for i in range(900 if big else 170):
        dom = ["moment", "joint"][i % 2]
        sc = Sc(f"c15-merge-{dom}-{i}")
        n = rng.choice([0, 1, 2, 2, 2, 3, 4])
        w, d, v = rng.choice([0, 3, 5]), 0.25, rng.choice([2, 3])
        conflict = rng.random() < 0.35
        ew = rng.random() < 0.3
        srcs = []
        for k in range(n):
            cfg = {"dom": dom}
            cw, cd, cv = (0 if ew else w), (d if ew else None), v
            if conflict and rng.random() < 0.5:
                what = rng.choice(["w", "d", "v"])
                if what == "w":
                    cw = cw + rng.choice([1, 2, 256, 65536])
                elif what == "d":
                    cd = rng.choice([0.5, 0.75, d + 1e-4, d - 1e-9, d + 2**-54, 1 - d])
                else:
                    cv = v + 1
            if rng.random() < 0.8:
                cfg["w"] = cw
            if cd is not None and rng.random() < 0.8:
                cfg["d"] = cd
            if dom == "moment":
                cfg["sums"] = [[x] for x in rng.sample(range(1, 7), rng.randint(0, 3))]
                cfg["nosums"] = not cfg["sums"] and rng.random() < 0.5
            else:
                if rng.random() < 0.6:
                    cfg["vars"] = cv
                cfg["sums"] = [[rng.choice([0, 1, 1, 2, 3]) for _ in range(cv)] for _ in range(rng.randint(0, 4))]
                cfg["sums"] = [t for t in cfg["sums"] if sum(t)]
                cfg["nosums"] = not cfg["sums"] and rng.random() < 0.5
            srcs.append({"cfg": cfg})
        sc.op("merge", "mc", mode=dom, **{"from": srcs})
        yield sc
    # duplicates, dominated tuples, all orders
    for i, tuples in enumerate(itertools.permutations([[1, 1], [2, 0], [2, 1], [1, 1], [0, 2]], 4)):
        if big or i % 4 == 0:
            sc = Sc(f"c15-perm-{i}")
            sc.op("merge", "mc", mode="joint", **{"from": [
                {"cfg": {"dom": "joint", "w": 3, "sums": [t]}} for t in tuples]})
            sc.op("newcore", "c", cfgref="mc")
            for x in vec_stream(rng, 6, 2):
                sc.push("c", *x)
            for t in tuples:
                for b in below(t):
                    sc.op("sum", "c", ks=b)
            yield sc
    # metrics that share a core
    for i in range(700 if big else 130):
        r = i % 4
        sc = Sc(f"c15-shared-{i}")
        w = rng.choice([0, 1, 2, 3, 4, 5, 8])
        d = rng.choice(DECAYS)
        if r == 0:
            pool = [("Mean", {"w": w}), ("Std", {"w": w}), ("Skewness", {"w": w}), ("Kurtosis", {"w": w}),
                    ("Moment", {"w": w, "k": rng.randint(1, 6)}), ("Moment", {"w": w, "k": rng.randint(1, 6)})]
            dom, v = "moment", 1
        elif r == 1:
            pool = [("EWMA", {"d": d}), ("EWMStd", {"d": d}), ("EWMMoment", {"d": d, "k": rng.randint(1, 5)}),
                    ("EWMMoment", {"d": d, "k": rng.randint(1, 5)})]
            dom, v = "moment", 1
        elif r == 2:
            pool = [("Cov", {"w": w}), ("Corr", {"w": w}), ("Cov", {"w": w}), ("Corr", {"w": w})]
            dom, v = "joint", 2
        else:
            pool = [("EWMCov", {"d": d}), ("EWMCorr", {"d": d}), ("EWMCov", {"d": d})]
            dom, v = "joint", 2
        rng.shuffle(pool)
        pool = pool[:rng.randint(2, len(pool))]
        names = []
        for k, (kind, p) in enumerate(pool):
            sc.new(f"m{k}", kind, noinit=rng.random() < 0.7, **p)
            names.append((f"m{k}", kind, p))
        srcs = [{"o": o} for o, _, _ in names]
        if rng.random() < 0.3:
            cfg = {"dom": dom, "sums": [[4]] if dom == "moment" else [[2, 2]]}
            srcs.insert(rng.randint(0, len(srcs)), {"cfg": cfg})
        sc.op("merge", "mc", mode=dom, **{"from": srcs})
        sc.op("newcore", "core", cfgref="mc", mut=False)
        for o, _, _ in names:
            sc.op("attach", o, core="core")
        n = length(rng, w) + 2
        data = [[x] for x in stream(rng, n)] if v == 1 else vec_stream(rng, n, 2)
        targets = [o for o, _, _ in names] + ["core"]
        for x in data:
            sc.push(rng.choice(targets), *x)
            if rng.random() < 0.04:
                sc.clear(rng.choice(targets))
            if rng.random() < 0.4:
                sc.val(rng.choice(names)[0])
        for o, _, _ in names:
            sc.val(o)
        sc.op("count", "core")
        yield sc
    # many configurations, high orders, many variables
    for i in range(120 if big else 24):
        dom = ["moment", "joint"][i % 2]
        sc = Sc(f"c15-wide-{dom}-{i}")
        n = rng.choice([5, 8, 12, 20])
        v = rng.choice([2, 3, 5, 6])
        w = rng.choice([0, 4, 50, 300])
        conflict = rng.random() < 0.3
        at = rng.randrange(n)
        srcs, asked = [], []
        for k in range(n):
            cfg = {"dom": dom}
            if rng.random() < 0.7 or k == at:
                cfg["w"] = w + (1 if conflict and k == at else 0)
            if dom == "moment":
                cfg["sums"] = [[x] for x in rng.sample(range(1, 31), rng.randint(0, 4))]
            else:
                if rng.random() < 0.6:
                    cfg["vars"] = v
                cfg["sums"] = []
                for _ in range(rng.randint(0, 3)):
                    t = [0] * v
                    for j in rng.sample(range(v), 2):
                        t[j] = rng.choice([1, 1, 2, 3])
                    cfg["sums"].append(t)
            cfg["nosums"] = not cfg["sums"]
            asked += cfg["sums"]
            srcs.append({"cfg": cfg})
        sc.op("merge", "mc", mode=dom, **{"from": srcs})
        if not conflict and (dom == "moment" or asked) and any("w" in x["cfg"] for x in srcs):
            sc.op("newcore", "c", cfgref="mc")
            for x in large_values(rng, 5, 1 if dom == "moment" else v, ""):
                sc.push("c", *x)
            for t in rng.sample(asked, min(25, len(asked))):
                sc.op("sum", "c", ks=t)
        yield sc
    # metrics that are given another core, before and after use, and after Init
    for i in range(200 if big else 40):
        sc = Sc(f"c15-again-{i}")
        if i % 2 == 0:
            pool = [("Mean", {}), ("Std", {}), ("Skewness", {}), ("Kurtosis", {}), ("Moment", {"k": 3})]
            sums, v, dom = [[4]], 1, "moment"
            if rng.random() < 0.5:
                sums = [[1], [2], [3], [4]]
        else:
            pool = [("Cov", {}), ("Corr", {})]
            sums, v, dom = [[2, 2]], 2, "joint"
        cores = []
        for k in range(2):
            w = rng.choice([0, 1, 2, 3, 6])
            ew = rng.random() < 0.25
            cfg = {"dom": dom, "w": 0 if ew else w, "sums": sums}
            if ew and i % 2 == 0:
                cfg["d"] = 0.5
                cfg["w"] = 0
            sc.op("newcore", f"c{k}", cfg=cfg)
            cores.append(cfg)
        ok = {f"c{k}": "d" not in c for k, c in enumerate(cores)}
        ms = []
        for k, (kind, p) in enumerate(rng.sample(pool, 2)):
            sc.new(f"m{k}", kind, w=rng.choice([0, 3, 5]), noinit=rng.random() < 0.5, **p)
            ms.append(f"m{k}")
        where = {}
        for _ in range(30):
            r = rng.random()
            m = rng.choice(ms)
            if r < 0.12:
                c = rng.choice([c for c in ok if ok[c]] or [None])
                if c:
                    sc.op("attach", m, core=c)
                    where[m] = c
            elif r < 0.15:
                sc.op("init", m)
                where[m] = m
            elif r < 0.19:
                sc.clear(rng.choice(ms + ["c0", "c1"]))
            elif r < 0.4:
                sc.push(rng.choice(["c0", "c1"]), *large_values(rng, 1, v, "")[0])
            else:
                sc.push(m, *large_values(rng, 1, v, "")[0])
            for m in ms:
                sc.val(m)
        yield sc
    # a core that lacks a sum
    for i in range(60 if big else 12):
        sc = Sc(f"c15-lacks-{i}")
        sc.op("newcore", "core", cfg={"dom": "moment", "w": 4, "sums": [[rng.choice([1, 2, 3])]]})
        for k, kind in enumerate(["Mean", "Std", "Skewness", "Kurtosis"]):
            sc.new(f"m{k}", kind, w=4, noinit=True).op("attach", f"m{k}", core="core")
        for x in stream(rng, 7):
            sc.push(f"m{rng.randint(0, 3)}", x)
            for k in range(4):
                sc.val(f"m{k}")
        yield sc


def agg_scenario(rng, sid, j, n, failing, mut=False, many=0):
    sc = Sc(sid)
    if j:
        kinds = [rng.choice(["Cov", "Corr", "EWMCov", "EWMCorr"]) for _ in range(many or rng.randint(0, 4))]
    else:
        kinds = [rng.choice([k for k in ALLM if arity(k) == 1 and k != "Quantile"])
                 for _ in range(many or rng.randint(0, 5))]
    members, sigs = [], set()
    for k, kind in enumerate(kinds):
        p = params(rng, kind)
        if "opts" in p:
            p["opts"] = qopts(rng)
        if p.get("w"):
            p["w"] = rng.choice([2, 3, 4, 5] if not many else list(range(1, 30)))
        sig = (kind, p.get("w"), p.get("d"), p.get("k"), p.get("lag"))
        if sig in sigs:
            continue
        sigs.add(sig)
        noinit = failing and rng.random() < 0.25 and kind not in ("Min", "Max", "Median", "IQR", "HeapMedian")
        sc.new(f"m{k}", kind, noinit=noinit, **p)
        members.append(f"m{k}")
    probe = "JProbe" if j else "Probe"
    for k in range(rng.randint(1, 3)):
        mode = rng.choice(["", "failpush", "failval"]) if failing else ""
        sc.new(f"p{k}", probe, mode=mode)
        members.append(f"p{k}")
    rng.shuffle(members)
    sc.new("agg", "JAgg" if j else "SAgg", members=members, mut=mut)
    sc.val("agg")
    for _ in range(n):
        r = rng.random()
        if r < 0.06:
            sc.clear("agg")
        elif r < 0.1 and members:
            sc.clear(rng.choice(members))
        elif r < 0.18 and members:
            sc.push(rng.choice(members), *stream(rng, 2 if j else 1))
        elif r < 0.23 and j:
            sc.push("agg", *stream(rng, rng.choice([0, 1, 3])))
        else:
            sc.push("agg", *stream(rng, 2 if j else 1, rng.choice(["floats", "quarters", "dups"])))
        if rng.random() < 0.5:
            sc.val("agg")
        if rng.random() < 0.3 and members:
            for m in members:
                sc.val(m)
    for m in members:
        sc.val(m)
    sc.val("agg").clear("agg")
    for m in members:
        sc.val(m)
    return sc


def c18(rng, tier):
    big = tier == "thorough"
    for i in range(900 if big else 150):
        yield agg_scenario(rng, f"c18-{i}", i % 2 == 1, rng.randint(2, 16), i % 3 != 0)
    for i in range(60 if big else 12):
        yield agg_scenario(rng, f"c18-many-{i}", i % 2 == 1, 6, i % 3 == 2, many=rng.choice([9, 17, 40, 70]))
    # a single member, at any place, that rejects pushes or has no value
    for i, n in enumerate([2, 3, 8, 9, 16, 17, 33, 65, 80] * (3 if big else 1)):
        for mode in ["failpush", "failval"]:
            j = rng.random() < 0.5
            sc = Sc(f"c18-single-{mode}-{i}")
            bad = rng.choice([0, n - 1, n - 1, rng.randrange(n)])
            for k in range(n):
                sc.new(f"p{k}", "JProbe" if j else "Probe", mode=mode if k == bad else "")
            members = [f"p{k}" for k in range(n)]
            sc.new("agg", "JAgg" if j else "SAgg", members=members, mut=False)
            for _ in range(2):
                sc.push("agg", *stream(rng, 2 if j else 1)).val("agg")
            for m in members:
                sc.val(m)
            yield sc
    # String() of every kind with many parameters
    sc, k = Sc("c18-names"), 0
    for kind in ALLM:
        for _ in range(12):
            sc.new(f"m{k}", kind, **params(rng, kind))
            sc.op("str", f"m{k}")
            k += 1
    for kk in [1, 2, 12, 21]:
        for w in [0, 1, 2, 3, 12, 21, 23]:
            sc.new(f"m{k}", "Moment", w=w, k=kk)
            k += 1
            for kind in ["Autocov", "Autocorr"]:
                sc.new(f"m{k}", kind, w=w, lag=kk)
                k += 1
            for kind in ["Mean", "Std", "Skewness", "Kurtosis", "Cov", "Corr", "Min", "Max", "HeapMedian", "Median",
                         "IQR"]:
                sc.new(f"m{k}", kind, w=w)
                k += 1
            for interp in INTERPS:
                sc.new(f"m{k}", "Quantile", w=w, opts=[{"t": "interp", "v": interp}])
                k += 1
        for d in DECAYS + [0.12, 0.121, 1e-5, 0.123456789, 0.123456788]:
            sc.new(f"m{k}", "EWMMoment", d=d, k=kk)
            k += 1
            for kind in ["EWMA", "EWMStd", "EWMCov", "EWMCorr"]:
                sc.new(f"m{k}", kind, d=d)
                k += 1
    yield sc


def c20(rng, tier):
    big = tier == "thorough"
    for i in range(900 if big else 200):
        size = rng.choice([1, 1, 2, 3, 4, 5, 8, 10] + ([64, 100, 256] if i % 10 == 9 else []))
        sc = Sc(f"c20-{i}")
        sc.new("r", "Reservoir", size=size)
        sc.op("rseed", "r", i=rng.randint(0, 10**9))
        mut = rng.random() < 0.6
        nxt = 1
        if i % 10 == 9:
            # many pushes at once
            for _ in range(rng.choice([1, 3])):
                for _ in range(rng.choice([50, 257, 600])):
                    sc.op("rpush", "r", i=nxt)
                    nxt += 1
                sc.op("rsample", "r", mut=mut).op("rsample", "r", mut=mut)
        two = rng.random() < 0.3
        if two:
            sc.new("r2", "Reservoir", size=rng.choice([1, 2, 5]))
        for _ in range(rng.choice([3, 10, 25, 40])):
            sc.op("rpush", "r", i=nxt)
            nxt += 1
            if two and rng.random() < 0.5:
                sc.op("rpush", "r2", i=nxt)
                nxt += 1
            if rng.random() < 0.5:
                sc.op("rsample", "r", mut=mut)
                if rng.random() < 0.3:
                    sc.op("rsample", "r", mut=mut)
                if two:
                    sc.op("rsample", "r2", mut=mut)
        sc.op("rsample", "r", mut=mut)
        yield sc


def c21(rng, tier):
    big = tier == "thorough"
    seed = [rng.randint(0, 10**8)]

    def stat(mode, size, ns, rep):
        seed[0] += 1
        sc = Sc(f"c21-{mode}-{size}-{ns[-1]}-{seed[0]}")
        sc.op("rstat", size=size, ks=ns, k=rep * (4 if big else 1), mode=mode, i=seed[0])
        return sc
    for size in [1, 2, 3, 4, 5]:
        yield stat("subsets", size, [size, size + 1, size + 2, size + 3], 400000)
    for size, ns in [(1, [9]), (2, [8]), (3, [7, 8]), (7, [8, 9]), (1, [12]), (10, [11])]:
        yield stat("subsets", size, ns, 400000)
    for size, ns in [(3, [10, 20]), (5, [12]), (1, [30]), (10, [11, 15, 20, 25]), (8, [40]), (20, [25, 40])]:
        yield stat("pairs", size, ns, 200000)
    for size, ns in [(10, [100]), (2, [60]), (50, [60, 150]), (1, [257])]:
        yield stat("pairs", size, ns, 30000)


def all_reads(sc, rng, o, kind, times, q=None):
    for _ in range(times):
        if rng.random() < 0.25:
            sc.op("str", o)
        if kind == "Quantile":
            sc.val(o, q or rng.choice(quantiles(rng) + [-1, "nan"]))
        else:
            sc.val(o)


def large_reads(rng, n, prefix):
    """hundreds of reads: of an empty metric, of a filling and of a full one"""
    for i in range(n):
        kind = ALLM[i % len(ALLM)]
        p = params(rng, kind)
        sc = Sc(f"{prefix}-many-{kind}-{i}").new("a", kind, **p).new("b", kind, **p)
        for phase in range(3):
            data = large_values(rng, rng.choice([1, 2, p.get("w", 5) + p.get("lag", 0) + 1]), arity(kind), kind)
            for x in data:
                sc.push("a", *x).push("b", *x)
            for _ in range(rng.choice([10, 40, 90])):
                sc.val("a", 0.37 if kind == "Quantile" else None)
            twin(sc, ["a", "b", "a"], kind, 0.37)
        yield sc


def c22(rng, tier):
    big = tier == "thorough"
    yield from large_reads(rng, 90 if big else 18, "c22")
    for i in range(1300 if big else 230):
        kind = ALLM[i % len(ALLM)]
        p = params(rng, kind)
        sc = Sc(f"c22-{kind}-{i}")
        sc.new("a", kind, **p).new("b", kind, **p)
        n = length(rng, p.get("w", 0)) + p.get("lag", 0) + 2
        data = vec_stream(rng, n, 2) if arity(kind) == 2 else [[x] for x in stream(rng, n)]
        q = rng.choice(quantiles(rng)) if rng.random() < 0.4 else None
        all_reads(sc, rng, "a", kind, rng.choice([0, 1, 3]), q)
        for x in data:
            sc.push("a", *x).push("b", *x)
            all_reads(sc, rng, "a", kind, rng.choice([0, 1, 2, 4]), q)
            if rng.random() < 0.04:
                sc.clear("a").clear("b")
                all_reads(sc, rng, "a", kind, rng.choice([0, 1, 3]), q)
            if rng.random() < 0.2:
                twin(sc, ["a", "a", "b", "a"], kind, q or rng.choice(quantiles(rng)))
        twin(sc, ["a", "b", "a"], kind, 0.6)
        yield sc
    for i in range(200 if big else 36):
        dom = ["moment", "joint"][i % 2]
        cfg = core_cfg(rng, dom, ew=rng.random() < 0.3)
        sc = Sc(f"c22-core-{i}")
        sc.op("newcore", "c", cfg=cfg)
        v = core_vars(cfg)
        tracked = [t for t in cfg["sums"] for t in below(t) if sum(t)]
        ks = rng.choice(tracked) if tracked and rng.random() < 0.4 else None
        for x in vec_stream(rng, min(20, length(rng, cfg["w"]) + 2), v):
            for _ in range(rng.choice([0, 1, 3])):
                if ks:
                    sc.op("sum", "c", ks=ks)
                else:
                    core_reads(sc, rng, "c", cfg)
            sc.push("c", *x)
        core_reads(sc, rng, "c", cfg, few=False)
        core_reads(sc, rng, "c", cfg, few=False)
        yield sc
    yield from order_scenarios(rng, 90 if big else 18, "c22", size=40, pread=1.0, render=0.3)
    for i in range(60 if big else 12):
        yield agg_scenario(rng, f"c22-agg-{i}", i % 2 == 1, 8, False)
    for i in range(60 if big else 12):
        size = rng.choice([1, 2, 3, 5])
        sc = Sc(f"c22-res-{i}").new("r", "Reservoir", size=size).op("rseed", "r", i=i)
        for k in range(1, 20):
            sc.op("rpush", "r", i=k)
            for _ in range(rng.choice([0, 1, 2, 3])):
                sc.op("rsample", "r")
        yield sc


def c23(rng, tier):
    big = tier == "thorough"
    # many instances at once, used in turn: each is as if alone
    for i in range(500 if big else 90):
        sc = Sc(f"c23-many-{i}")
        objs = []
        base = rng.choice(ALLM)
        for k in range(rng.randint(2, 5)):
            kind = base if rng.random() < 0.6 else rng.choice(ALLM)
            objs.append((f"m{k}", kind, params(rng, kind)))
        for o, kind, p in objs:
            sc.new(o, kind, **p)
        extra = None
        for _ in range(rng.choice([20, 40, 70])):
            o, kind, p = rng.choice(objs)
            r = rng.random()
            if r < 0.04:
                sc.clear(o)
            elif r < 0.35:
                sc.val(o, rng.choice(quantiles(rng)) if kind == "Quantile" else None)
            else:
                sc.push(o, *stream(rng, arity(kind)), mut=True)
        for o, kind, p in objs:
            sc.val(o, 0.4 if kind == "Quantile" else None)
        yield sc
    # caller's slices after Push
    yield from core_scenarios("joint", rng, 250 if big else 50, "c23", mut=True)
    for i in range(200 if big else 40):
        kind = ["Cov", "Corr", "EWMCov", "EWMCorr"][i % 4]
        p = params(rng, kind)
        sc = Sc(f"c23-slice-{kind}-{i}").new("m", kind, **p)
        for x in vec_stream(rng, length(rng, p.get("w", 0)) + 4, 2):
            sc.push("m", *x, mut=True).val("m")
        yield sc
    # configurations changed after construction, and shared by several cores
    for i in range(400 if big else 80):
        dom = ["moment", "joint"][i % 2]
        ew = rng.random() < 0.4
        cfg = core_cfg(rng, dom, ew)
        sc = Sc(f"c23-cfg-{i}")
        if rng.random() < 0.5 and dom == "moment":
            cfg = dict(cfg, sums=[], nosums=True)
        elif rng.random() < 0.2 and dom == "joint":
            cfg = dict(cfg, vars=core_vars(cfg), sums=[], nosums=True)
        sc.op("cfg", "k", cfg=cfg)
        sc.op("newcore", "c1", cfgref="k")
        if rng.random() < 0.5:
            sc.op("newcore", "c2", cfgref="k")
        else:
            sc.op("newcore", "c2", cfg=cfg, mut=True)
        v = core_vars(cfg)
        data = vec_stream(rng, min(16, length(rng, cfg["w"]) + 3), v)
        cut = rng.randint(0, len(data))
        for j, x in enumerate(data):
            if j == cut:
                sc.op("cfgscramble", "k")
            sc.push(rng.choice(["c1", "c2"]), *x)
            core_reads(sc, rng, "c1", cfg)
            core_reads(sc, rng, "c2", cfg)
            if rng.random() < 0.05:
                sc.clear(rng.choice(["c1", "c2"]))
        # a core made later from defaults
        cfg3 = {"dom": dom, "w": 3}
        if dom == "joint":
            cfg3["vars"] = 2
        sc.op("newcore", "c3", cfg=dict(cfg3, sums=[], nosums=True))
        for x in vec_stream(rng, 3, core_vars(dict(cfg3, sums=[]))):
            sc.push("c3", *x)
        for k in range(1, 6):
            sc.op("sum", "c3", ks=[k] if dom == "moment" else [k % 3, k % 2])
        yield sc
    # merged configurations changed after the core is made
    for i in range(120 if big else 24):
        sc = Sc(f"c23-merged-{i}")
        dom = ["moment", "joint"][i % 2]
        a, b = core_cfg(rng, dom, vars_=2), core_cfg(rng, dom, vars_=2)
        a["w"] = b["w"] = rng.choice([0, 2, 3, 5])
        sc.op("cfg", "ka", cfg=a).op("cfg", "kb", cfg=b)
        sc.op("newcore", "ca", cfgref="ka")
        sc.op("merge", "km", mode=dom, **{"from": [{"cfgref": "ka"}, {"cfgref": "kb"}]})
        sc.op("newcore", "cm", cfgref="km")
        for k in rng.sample(["ka", "kb", "km"], rng.randint(1, 3)):
            sc.op("cfgscramble", k)
        both = dict(a, sums=a["sums"] + b["sums"])
        for x in vec_stream(rng, 8, core_vars(a)):
            sc.push("ca", *x).push("cm", *x)
            core_reads(sc, rng, "cm", both)
            core_reads(sc, rng, "ca", a)
        yield sc
    # the configurations that metrics return, changed before and after use
    kinds = [k for k in ALLM if k in UNI + EWUNI + EWJ + ["Cov", "Corr", "Autocov", "Autocorr"]]
    for i in range(len(kinds) * (10 if big else 3)):
        kind = kinds[i % len(kinds)]
        p = params(rng, kind)
        noinit = rng.random() < 0.5
        sc = Sc(f"c23-own-{kind}-{i}").new("m", kind, noinit=noinit, **p)
        if noinit:
            sc.op("mcfgscramble", "m").op("str", "m").op("init", "m")
        data = vec_stream(rng, length(rng, p.get("w", 0)) + 4 + p.get("lag", 0), arity(kind))
        cut = rng.randrange(len(data))
        for j, x in enumerate(data):
            if j == cut:
                sc.op("mcfgscramble", "m").op("str", "m")
            sc.push("m", *x).val("m")
        if rng.random() < 0.5:
            sc.op("init", "m").push("m", *data[0]).push("m", *data[-1]).val("m")
        yield sc
    # merged configurations of metrics, changed after the metrics share a core
    for i in range(60 if big else 16):
        sc = Sc(f"c23-mergedm-{i}")
        dom = ["moment", "joint"][i % 2]
        ks = rng.sample(["Mean", "Std", "Skewness", "Kurtosis"] if i % 2 == 0 else ["Cov", "Corr"], 2)
        w = rng.choice([0, 2, 3, 5])
        for k, kind in enumerate(ks):
            sc.new(f"m{k}", kind, w=w, noinit=True)
        sc.op("merge", "km", mode=dom, **{"from": [{"o": "m0"}, {"o": "m1"}]})
        sc.op("newcore", "c", cfgref="km")
        if rng.random() < 0.5:
            sc.op("cfgscramble", "km")
        sc.op("attach", "m0", core="c").op("attach", "m1", core="c")
        sc.op("cfgscramble", "km")
        for x in vec_stream(rng, 8, 1 if i % 2 == 0 else 2):
            sc.push("m0", *x).op("str", "m0").op("str", "m1").val("m0").val("m1")
        yield sc
    # option slices shared by several metrics
    for i in range(200 if big else 40):
        sc = Sc(f"c23-opts-{i}")
        opts = qopts(rng, rng.choice(IMPLS), rng.choice(INTERPS + [None]))
        for o in opts:
            o["sopts"] = [s for s in o.get("sopts", []) if s["t"] != "rand"]
        sc.op("optslice", "os", opts=opts, spare=rng.choice([0, 1, 2, 4]))
        kinds = [rng.choice(["Quantile", "Median", "IQR"]) for _ in range(3)]
        for k, kind in enumerate(kinds):
            sc.new(f"m{k}", kind, w=rng.choice([0, 3, 4]), optref="os", opts=opts)
        if rng.random() < 0.6:
            sc.op("optscramble", "os")
        for _ in range(25):
            k = rng.randrange(3)
            sc.push(f"m{k}", *stream(rng, 1))
            k = rng.randrange(3)
            sc.val(f"m{k}", 0.3 if kinds[k] == "Quantile" else None)
        yield sc
    for i in range(100 if big else 20):
        yield agg_scenario(rng, f"c23-agg-{i}", i % 2 == 1, 8, False, mut=True)
    for i in range(100 if big else 20):
        sc = Sc(f"c23-heap-{i}")
        sc.op("hnew", "h", cmp="min", xs=stream(rng, 5)).op("hnew", "g", cmp="max", xs=stream(rng, 5))
        for k in range(12):
            h = rng.choice("hg")
            sc.op("hpush", h, item=f"{h}{k}", x=stream(rng, 1)[0]).op("hvalues", h).op("hpeek", rng.choice("hg"))
            if k % 4 == 3:
                sc.op("hpop", h).op("hvalues", "h").op("hvalues", "g")
        yield sc
    for sc in c20(rng, "quick"):
        sc.id = "c23-" + sc.id
        if rng.random() < (0.5 if big else 0.15):
            yield sc


def large_heaps(rng, n, size):
    """hundreds of items, updated and removed all over the heap"""
    for i in range(n):
        init = stream(rng, rng.choice([0, 1, 40, 200]), rng.choice(["dups", "floats", "asc", "desc"]))
        sc = Sc(f"c25-large-{i}").op("hnew", "h", cmp=["min", "max"][i % 2], xs=init)
        live = []
        style = rng.choice(["dups", "floats", "asc", "desc", "quarters"])
        for k, x in enumerate(stream(rng, size, style)):
            sc.op("hpush", "h", item=f"i{k}", x=x)
            live.append(f"i{k}")
            if k % 10 == 0:
                sc.op("hpeek", "h")
        for k in range(size):
            r = rng.random()
            if r < 0.5 and live:
                sc.op("hupdate", "h", item=rng.choice(live), x=stream(rng, 1, "floats")[0])
            elif live:
                it = live.pop(rng.randrange(len(live)))
                sc.op("hremove", "h", item=it)
            if live or init:
                sc.op("hpeek", "h")
        sc.op("hlen", "h").op("hvalues", "h")
        for _ in range(len(live) + len(init)):
            sc.op("hpop", "h")
        sc.op("hlen", "h")
        yield sc


def c25(rng, tier):
    big = tier == "thorough"
    yield from large_heaps(rng, 40 if big else 8, 300 if big else 150)
    for i in range(900 if big else 170):
        sc = Sc(f"c25-{i}")
        init = stream(rng, rng.choice([0, 0, 1, 2, 5, 9]), rng.choice(["dups", "quarters", "asc", "desc"]))
        sc.op("hnew", "h", cmp=rng.choice(["min", "max"]), xs=init)
        sc.op("hlen", "h")
        live, gone, anon, nxt = [], [], len(init), 0
        # without pops of anonymous items, the generator cannot know which items are left, so
        # that pops only happen while no named item is referred to afterwards
        named_pops = rng.random() < 0.5
        style = rng.choice(["dups", "quarters", "floats"])
        edgy = rng.random() < 0.15
        pool = rng.sample(EDGES, 5)
        for _ in range(rng.choice([6, 15, 30])):
            r = rng.random()
            if not live or r < 0.4:
                if gone and rng.random() < 0.4:
                    it = gone.pop()
                else:
                    it = f"i{nxt}"
                    nxt += 1
                sc.op("hpush", "h", item=it, x=rng.choice(pool) if edgy else stream(rng, 1, style)[0])
                live.append(it)
            elif r < 0.65:
                sc.op("hupdate", "h", item=rng.choice(live), x=rng.choice(pool) if edgy else stream(rng, 1, style)[0])
            elif r < 0.9:
                it = rng.choice(live)
                live.remove(it)
                gone.append(it)
                sc.op("hremove", "h", item=it)
            if live:
                sc.op("hpeek", "h")
            sc.op("hlen", "h")
            if rng.random() < 0.4:
                sc.op("hvalues", "h")
        for _ in range(len(live) + len(init)):
            sc.op("hpeek", "h").op("hpop", "h").op("hlen", "h")
            if rng.random() < 0.3:
                sc.op("hvalues", "h")
        for k in range(3):
            sc.op("hpush", "h", item=f"z{k}", x=float(3 - k)).op("hpeek", "h")
        sc.op("hupdate", "h", item="z1", x=-9.0).op("hpeek", "h").op("hpop", "h").op("hvalues", "h")
        yield sc


def c26(rng, tier):
    big = tier == "thorough"
    # large offsets
    for i in range(700 if big else 120):
        b = rng.choice([1e6, 1e8, 1e9, -1e9, 1e10, 2**33, -1e7])
        kind = rng.choice(UNI + EWUNI + ["Cov", "Corr", "EWMCov", "EWMCorr", "Autocov", "Autocorr"])
        p = params(rng, kind)
        if "k" in p:
            p["k"] = rng.choice([2, 3, 4, 5, 6])
        sc = Sc(f"c26-off-{kind}-{i}").new("m", kind, **p)
        n = length(rng, p.get("w", 0)) + p.get("lag", 0) + 4
        for _ in range(n):
            sc.push("m", *[b + rng.choice([0, 0, 1, 2, 4, 8, -3, 0.5]) for _ in range(arity(kind))])
            if rng.random() < 0.3:
                sc.val("m")
        sc.val("m")
        yield sc
    for i in range(200 if big else 40):
        dom = ["moment", "joint"][i % 2]
        cfg = core_cfg(rng, dom, ew=rng.random() < 0.3)
        b = rng.choice([1e6, 1e8, 1e9, -1e9])
        sc = Sc(f"c26-off-core-{i}").op("newcore", "c", cfg=cfg)
        for _ in range(min(25, length(rng, cfg["w"]) + 4)):
            sc.push("c", *[b + rng.choice([0, 0, 1, 2, 4, 8, -3, 0.5]) for _ in range(core_vars(cfg))])
        core_reads(sc, rng, "c", cfg, few=False)
        yield sc
    # long rolling histories
    long_n = 60000 if big else 3000
    for i in range(40 if big else 13):
        kind = (UNI + ["Cov", "Corr", "Autocov", "Autocorr"])[i % 9]
        p = params(rng, kind)
        if i % 3:
            p.pop("glob", None)
            p["w"] = rng.choice([2, 3, 5, 8, 17, 40])
        elif p["w"] == 0:
            p["w"] = 6
            p.pop("glob", None)
        if kind == "Moment":
            p["k"] = rng.choice([2, 3, 4])
        sc = Sc(f"c26-long-{kind}-{i}").new("m", kind, **p)
        b = rng.choice([0, 0, 1000, 1e6])
        for chunk in range(10):
            if arity(kind) == 2:
                xss = [[b + rng.uniform(-1, 1), rng.uniform(-1, 1)] for _ in range(long_n // 10)]
            else:
                xss = [[b + rng.uniform(-1, 1)] for _ in range(long_n // 10)]
            sc.pushn("m", xss)
            sc.val("m")
            if rng.random() < 0.3:
                # a constant stretch
                c = rng.choice([0.1, b + 0.3])
                sc.pushn("m", [[c] * arity(kind)] * (p["w"] + 2)).val("m")
        yield sc
    for i in range(8 if big else 3):
        cfg = core_cfg(rng, "joint", vars_=2)
        cfg["w"] = rng.choice([2, 4, 7])
        cfg["sums"] = [[1, 1], [2, 2]]
        sc = Sc(f"c26-long-core-{i}").op("newcore", "c", cfg=cfg)
        for _ in range(5):
            sc.pushn("c", [[rng.uniform(-1, 1) + 100, rng.uniform(-1, 1)] for _ in range(long_n // 10)])
            core_reads(sc, rng, "c", cfg, few=False)
        yield sc


def c27(rng, tier):
    big = tier == "thorough"

    def skewed(n):
        # a few outliers of a known sign, so that high powers are dominated by them
        return [float(rng.choice([0, 0, 0, 1]) if rng.random() < 0.75 else rng.choice([2, 2, 2, -1])) for _ in range(n)]
    for k in range(1, 61):
        for rep in range(6 if big else 1):
            for kind, p in [("Moment", {"w": rng.choice([3, 4, 6])}), ("Moment", {"w": 0}),
                            ("EWMMoment", {"d": rng.choice([0.25, 0.5, 0.1])})]:
                sc = Sc(f"c27-{kind}-{k}-{p}-{rep}").new("m", kind, k=k, **p)
                for x in skewed(9):
                    sc.push("m", x)
                    if rng.random() < 0.5:
                        sc.val("m")
                sc.val("m")
                yield sc
    for i in range(60 if big else 10):
        ew = i % 3 == 2
        top = rng.choice([12, 20, 21, 22, 25, 29, 30, 33, 35, 42, 51, 60])
        cfg = {"dom": "moment", "w": 0 if ew else rng.choice([0, 3, 5]), "sums": [[top]]}
        if ew:
            cfg["d"] = 0.25
        sc = Sc(f"c27-core-{i}").op("newcore", "c", cfg=cfg)
        for x in skewed(8):
            sc.push("c", x)
        for k in range(1, top + 1):
            sc.op("sum", "c", ks=[k])
        sc.push("c", 2.0)
        for k in range(1, top + 1):
            sc.op("sum", "c", ks=[k])
        yield sc
    tuples = [[30, 1], [1, 30], [30, 30], [22, 3], [25, 0], [0, 28], [13, 13], [21, 21], [5, 24], [30, 0, 1], [0, 22, 2],
              [6, 6, 6], [1, 1, 1, 1, 1], [24, 1, 1], [4, 4, 4, 2]]
    for i, t in enumerate(tuples if big else tuples[:2] + rng.sample(tuples[3:], 6)):
        for ew in [False, True]:
            cfg = {"dom": "joint", "w": 0 if ew else rng.choice([0, 3]), "sums": [t]}
            if ew:
                cfg["d"] = 0.25
            sc = Sc(f"c27-joint-{i}-{ew}").op("newcore", "c", cfg=cfg)
            for _ in range(4 if max(t) > 20 else 6):
                sc.push("c", *skewed(len(t)))
            bs = [b for b in below(t) if sum(b) > 0]
            for b in [t] + rng.sample(bs, min(12, len(bs))):
                sc.op("sum", "c", ks=b)
            yield sc
    # a first value whose powers overflow, although those of its distance to the mean do not
    for i in range(12 if big else 4):
        t = rng.choice([[20, 20], [30, 30], [25, 14], [30, 12]])
        off = rng.choice([1e8, -1e8, 3e9])
        cfg = {"dom": "joint", "w": 0 if i % 2 else rng.choice([0, 2]), "sums": [t]}
        if i % 2:
            cfg["d"] = 0.25
        sc = Sc(f"c27-offset-{i}").op("newcore", "c", cfg=cfg)
        for _ in range(4):
            sc.push("c", *[off + x for x in skewed(2)]).op("sum", "c", ks=t)
        for b in rng.sample([b for b in below(t) if sum(b) > 0], 8):
            sc.op("sum", "c", ks=b)
        yield sc


def c28(rng, tier):
    big = tier == "thorough"
    for i in range(700 if big else 130):
        kind = ["Quantile", "Median", "IQR"][i % 3]
        w = 0 if rng.random() < 0.25 else rng.choice(WINDOWS)
        interp = rng.choice(INTERPS)
        sc = Sc(f"c28-{kind}-{i}")
        os_ = []
        for k in range(5):
            impl = [0, 1, 2, 2, 2][k]
            sopts = []
            if k >= 2:
                mx = [None, 1, rng.choice([2, 3, 5, 64])][k - 2]
                if mx:
                    sopts.append({"t": "max", "v": mx})
                sopts.append({"t": "p", "p": rng.choice([0.01, 0.25, 0.5, 0.75, 0.99])})
                if rng.random() < 0.7:
                    sopts.append({"t": "rand", "v": rng.randint(1, 10**6)})
                rng.shuffle(sopts)
            opts = [{"t": "impl", "v": impl, "sopts": sopts}, {"t": "interp", "v": interp}]
            rng.shuffle(opts)
            sc.new(f"m{k}", kind, w=w, opts=opts)
            os_.append(f"m{k}")
        n = length(rng, w) + 5
        for x in stream(rng, n):
            if rng.random() < 0.03:
                for o in os_:
                    sc.clear(o)
            for o in os_:
                sc.push(o, x)
            if rng.random() < 0.4:
                sc.op("vals", os=os_, q=rng.choice(quantiles(rng)))
        sc.op("vals", os=os_, q=rng.choice(quantiles(rng)))
        yield sc
    for i in range(40 if big else 8):
        kind = ["Quantile", "Median", "IQR"][i % 3]
        w = rng.choice([0] + BIGW[:13])
        sc = Sc(f"c28-large-{i}")
        os_ = []
        for k in range(5):
            impl = [0, 1, 2, 2, 2][k]
            sopts = [{"t": "max", "v": rng.choice([1, 2, 3, 30, 64])}] if k > 2 else []
            sc.new(f"m{k}", kind, w=w, opts=[{"t": "impl", "v": impl, "sopts": sopts}, {"t": "interp", "v": rng.randint(0, 4) if kind != "Quantile" else i % 5}])
            os_.append(f"m{k}")
        for phase in range(2):
            cnt = rng.choice([w + 2, 2 * w + 1, 600]) if w else 400
            data = large_values(rng, cnt, 1, kind)
            last = 0
            for c in cuts(rng, cnt, w, 4):
                for o in os_:
                    sc.pushn(o, data[last:c])
                last = c
                sc.op("vals", os=os_, q=rng.choice(quantiles(rng)))
            for o in os_:
                sc.clear(o)
            sc.op("vals", os=os_, q=0.5)
        yield sc
    for i in range(30 if big else 4):
        kind = "Quantile"
        w = rng.choice([30, 64, 100])
        sc = Sc(f"c28-long-{i}")
        os_ = []
        for k in range(4):
            impl = [0, 1, 2, 2][k]
            sopts = [{"t": "max", "v": rng.choice([2, 8, 40])}, {"t": "p", "p": rng.choice([0.2, 0.5, 0.8])}] if k > 1 else []
            sc.new(f"m{k}", kind, w=w, opts=[{"t": "impl", "v": impl, "sopts": sopts}, {"t": "interp", "v": i % 5}])
            os_.append(f"m{k}")
        for j, x in enumerate(stream(rng, 400, rng.choice(["dups", "quarters", "floats"]))):
            for o in os_:
                sc.push(o, x)
            if j % 9 == 0:
                sc.op("vals", os=os_, q=rng.choice(quantiles(rng)))
        yield sc


def c29(rng, tier):
    big = tier == "thorough"
    for i in range(500 if big else 100):
        dom = ["moment", "joint", "joint"][i % 3]
        cfg = core_cfg(rng, dom, ew=rng.random() < 0.25)
        if i % 8 == 3 and dom == "joint":
            v = rng.choice([5, 6, 8])
            cfg = {"dom": "joint", "w": cfg["w"], "sums": [
                [rng.choice([0, 0, 0, 1, 2]) if j else 1 for j in range(v)] for _ in range(2)]}
        if i % 7 == 0 and dom == "joint":
            cfg = {"dom": "joint", "w": cfg["w"], "vars": rng.choice([2, 3]), "sums": []}
        sc = Sc(f"c29-{dom}-{i}").op("newcore", "c", cfg=cfg)
        v = core_vars(cfg)
        for x in vec_stream(rng, rng.choice([1, 2, 3, 6]), v):
            sc.push("c", *x)
        if dom == "moment":
            for k in list(range(-3, 9)) + [31, 1000]:
                sc.op("sum", "c", ks=[k])
            sc.op("mean", "c", i=0)
        else:
            for m in range(-2, v + 3):
                sc.op("mean", "c", i=m)
            cand = []
            for t in cfg["sums"]:
                cand += below(t)
                for _ in range(6):
                    u = list(t)
                    u[rng.randrange(v)] += rng.choice([1, -1, 2])
                    cand.append(u)
                # tuples whose base-31 hash is that of a tracked one
                for b in below(t):
                    for j in range(v - 1):
                        u = list(b)
                        u[j] -= 1
                        u[j + 1] += 31
                        cand.append(u)
                        u = list(b)
                        u[j] += 1
                        u[j + 1] -= 31
                        cand.append(u)
                    cand.append([0] + b)
                    cand.append(b + [0])
                    if b[0] == 0:
                        cand.append(b[1:])
            cand += [[rng.randint(-1, 3) for _ in range(rng.choice([v, v, v + 1, v - 1]))] for _ in range(10)]
            cand += [[0] * v, [0], [1], []]
            rng.shuffle(cand)
            for t in cand[: 80 if big else 45]:
                sc.op("sum", "c", ks=t)
        yield sc


def register():
    g = globals()
    return {f"C{i:02d}": g[f"c{i:02d}"] for i in range(1, 30) if f"c{i:02d}" in g}


GENS = register()
