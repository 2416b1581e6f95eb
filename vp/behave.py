"""The groups of objects whose behaviours are enumerated, by property."""
from .tour import behaviours, each, merges, new, windows_group

U = ["Mean", "Std", "Skewness", "Kurtosis"]
INTERPS = [0, 1, 2, 3, 4]
ONE = [[1.0], [-2.5]]
TWO = [[1.0, 2.0], [-2.0, 0.5], [1.0, -1.0]]


def reads(os_, qs=(0.5,)):
    return [op for q in qs for op in each(os_, "val", q=q)]


def group(name, setup, steps, after):
    return (name, setup, steps, after)


def impl(i, interp=None, **kw):
    sopts = [{"t": t, "v": v} if t == "max" else {"t": t, "p": v} for t, v in kw.items()]
    out = [{"t": "impl", "v": i, "sopts": sopts}]
    if interp is not None:
        out.append({"t": "interp", "v": interp})
    return out


def moments():
    return windows_group("moments", [(k, {}) for k in U] + [("Moment", {"k": 3}), ("Moment", {"k": 1})],
                         [0, 1, 2, 3], ONE)


def core_group(name, cfg, values, more=()):
    """a core and all its answers"""
    joint = cfg["dom"] == "joint"
    v = len(cfg["sums"][0]) if joint else 1
    after = [{"op": "count", "o": "c"}] + [{"op": "mean", "o": "c", "i": i} for i in (range(-1, v + 1) if joint else [0])]
    tops = [max(t[i] for t in cfg["sums"]) for i in range(v)]
    for k in cube([t + 2 for t in tops]):
        after.append({"op": "sum", "o": "c", "ks": [j - (0 if joint else 1) for j in k]})
    steps = [[{"op": "push", "o": "c", "xs": x}] for x in list(values) + list(more)] + [each(["c"], "clear")]
    return group(name, [{"op": "newcore", "o": "c", "cfg": cfg}], steps, after)


def cube(ns):
    if not ns:
        return [[]]
    return [[i] + t for i in range(ns[0]) for t in cube(ns[1:])]


def weighted():
    kinds = [("EWMA", {}), ("EWMStd", {}), ("EWMMoment", {"k": 3}), ("EWMMoment", {"k": 2}), ("EWMMoment", {"k": 1})]
    return windows_group("weighted", [(k, dict(p, d=d)) for k, p in kinds for d in (0.25, 0.5, 0.875)], [None], ONE)


def joint():
    return windows_group("joint", [(k, {}) for k in ("Cov", "Corr")], [0, 1, 2, 3], TWO)


def weighted_joint():
    return windows_group("weighted joint", [(k, {"d": d}) for k in ("EWMCov", "EWMCorr") for d in (0.25, 0.5, 0.875)],
                         [None], TWO)


def lagged():
    return windows_group("lagged", [(k, {"lag": lag}) for k in ("Autocov", "Autocorr") for lag in (0, 1, 2)],
                         [0, 1, 2, 3], ONE)


def extremes():
    return windows_group("extremes", [("Min", {}), ("Max", {})], [0, 1, 2, 3, 4], [[1.0], [-2.5], [3.0]])


def quantiles(name="quantiles"):
    kinds = [("Quantile", {"opts": impl(i, k)}) for k in INTERPS for i in range(3)]
    return windows_group(name, kinds, [0, 2, 3], [[1.0], [-2.5], [4.0]], qs=[0.25, 0.5, 0.7])


def heap_median():
    return windows_group("heap median", [("HeapMedian", {})], [0, 1, 2, 3, 4, 5], [[1.0], [-2.5], [4.0]])


def medians():
    kinds = [(k, {"opts": impl(i)}) for k in ("Median", "IQR") for i in range(3)]
    return windows_group("medians", kinds, [0, 1, 2, 3, 4], [[1.0], [-2.5], [4.0]])


def cleared():
    """some of every kind; the clear of one metric does not affect others"""
    setup = [new("a", "Std", w=2), new("b", "Kurtosis", w=0), new("c", "EWMStd", d=0.5), new("d", "Autocov", w=2, lag=1),
             new("e", "Min", w=2), new("f", "Median", w=3, opts=impl(2)), new("g", "HeapMedian", w=2),
             new("h", "Quantile", w=0, opts=impl(0)), new("agg", "SAgg", members=["b", "d", "g"])]
    os_ = list("abcdefgh")
    return group("cleared", setup, [each(os_, "push", xs=[1.0]), each(os_, "push", xs=[-2.5]), each(os_, "clear"),
                                    each(list("aceg"), "clear"), each(["agg"], "clear"),
                                    each(["agg"], "push", xs=[4.0])],
                 reads(os_) + each(["agg"], "val"))


def rejected():
    setup = [new("a", "Cov", w=2), new("b", "Corr", w=0), new("c", "EWMCov", d=0.5), new("d", "EWMCorr", d=0.5),
             new("q", "Quantile", w=2, opts=impl(1)), new("u", "Std", w=3, noinit=True),
             new("v", "Autocov", w=2, lag=1, noinit=True), new("x", "Corr", w=2, noinit=True)]
    two = list("abcd")
    after = reads(two + ["q", "u", "v", "x"])
    after += [{"op": "val", "o": "q", "q": q} for q in (0, 1, -0.25, 1.5, "nan", 0.25)]
    return group("rejected", setup,
                 [each(two + ["x"], "push", xs=[1.0, 2.0]) + each(["q", "u", "v"], "push", xs=[1.0]),
                  each(two + ["x"], "push", xs=[-2.0, 0.5]) + each(["q", "u", "v"], "push", xs=[2.5]),
                  each(two, "push", xs=[4.0]), each(two, "push", xs=[4.0, 5.0, 6.0]),
                  each(two + ["q", "u", "v", "x"], "clear")], after)


def bad_core():
    return core_group("core", {"dom": "joint", "w": 2, "sums": [[2, 0], [1, 1]]}, TWO[:2], more=[[3.0], [1.0, 2.0, 3.0]])


def shared():
    setup = [{"op": "newcore", "o": "core", "cfg": {"dom": "moment", "w": 3, "sums": [[2], [3], [4]]}}]
    os_ = []
    for k, p in [("Mean", {}), ("Std", {}), ("Skewness", {}), ("Kurtosis", {}), ("Moment", {"k": 3})]:
        os_.append(k)
        setup += [new(k, k, w=3, noinit=True, **p), {"op": "attach", "o": k, "core": "core"}]
    return group("shared", setup,
                 [each(["Mean"], "push", xs=[1.0]), each(["Kurtosis"], "push", xs=[-2.5]),
                  each(["core"], "push", xs=[4.0]), each(["Std"], "clear")], reads(os_) + each(["core"], "count"))


def shared_joint():
    setup = [{"op": "newcore", "o": "core", "cfg": {"dom": "joint", "w": 2, "sums": [[1, 1], [2, 0], [0, 2]]}}]
    for k in ("Cov", "Corr"):
        setup += [new(k, k, w=2, noinit=True), {"op": "attach", "o": k, "core": "core"}]
    return group("shared joint", setup,
                 [each(["Cov"], "push", xs=[1.0, 2.0]), each(["Corr"], "push", xs=[-2.0, 0.5]),
                  each(["core"], "push", xs=[3.0, -1.0]), each(["Corr"], "push", xs=[1.0]), each(["Cov"], "clear")],
                 reads(["Cov", "Corr"]) + each(["core"], "count"))


def aggregate():
    setup = [new("a", "Std", w=2), new("b", "Max", w=2), new("c", "Mean", w=3, noinit=True),
             new("d", "Median", w=2, opts=impl(0)), new("p", "Probe"), new("f", "Probe", mode="failpush"),
             new("good", "SAgg", members=["a", "b", "d", "p"]), new("bad", "SAgg", members=["b", "f", "p", "a"]),
             new("none", "SAgg", members=[])]
    # "bad" can report values; a member that is not initialised cannot
    setup.append(new("dead", "SAgg", members=["c", "p"]))
    return group("aggregate", setup,
                 [each(["good"], "push", xs=[1.0]), each(["bad"], "push", xs=[-2.5]), each(["dead"], "push", xs=[4.0]),
                  each(["b"], "push", xs=[3.0]), each(["good"], "clear"), each(["none"], "push", xs=[1.0])],
                 each(["good", "bad", "dead", "none"], "val") + reads(list("abcdpf")))


def joint_aggregate():
    setup = [new("a", "Cov", w=2), new("b", "Corr", w=0), new("c", "EWMCov", d=0.5), new("p", "JProbe"),
             new("f", "JProbe", mode="failpush"), new("good", "JAgg", members=["a", "b", "p"]),
             new("bad", "JAgg", members=["c", "f", "p"])]
    return group("joint aggregate", setup,
                 [each(["good"], "push", xs=[1.0, 2.0]), each(["bad"], "push", xs=[-2.0, 0.5]),
                  each(["good", "bad"], "push", xs=[4.0]), each(["good"], "clear"), each(["a"], "push", xs=[3.0, 3.0])],
                 each(["good", "bad"], "val") + reads(["a", "b", "c", "p", "f"]))


def same():
    """implementations that agree exactly"""
    setup, groups, os_ = [], [], []
    for w in (0, 2, 3):
        for interp in INTERPS:
            ids = []
            for j, o in enumerate([impl(0, interp), impl(1, interp), impl(2, interp),
                                   impl(2, interp, max=1), impl(2, interp, max=3, p=0.75)]):
                ids.append(f"m{w}-{interp}-{j}")
                setup.append(new(ids[-1], "Quantile", w=w, opts=o))
            os_ += ids
            groups.append(ids)
    return group("same", setup, [each(os_, "push", xs=x) for x in ([1.0], [-2.5], [4.0])] + [each(os_, "clear")],
                 [{"op": "vals", "os": ids, "q": q} for ids in groups for q in (0.25, 0.7)])


def pool(dom, ws, ds, vs, sums):
    out = []
    for w in ws:
        for d in ds:
            for v in vs:
                for t in sums:
                    cfg = {"dom": dom, "sums": t, "nosums": not t}
                    for k, x in (("w", w), ("d", d), ("vars", v)):
                        if x is not None:
                            cfg[k] = x
                    out.append({"cfg": cfg})
    return out


def moment_pool(ws=(None, 0, 2), ds=(None, 0.5, 0.25), sums=((), (2,), (3,), (4, 2))):
    return pool("moment", ws, ds, [None], [[[k] for k in t] for t in sums])


JOINT_SUMS = [[], [[1, 1]], [[2, 0]], [[1, 1], [0, 2]], [[2, 1]], [[1, 1, 1]]]


def joint_pool(ws=(None, 0, 2), ds=(None, 0.5), vs=(None, 2, 3), sums=tuple(JOINT_SUMS)):
    return pool("joint", ws, ds, vs, sums)


def metric_pool(kinds):
    return [{"new": new("m", k, noinit=True, **p)} for k, p in kinds]


def moment_metrics():
    return metric_pool([(k, dict(p, w=w)) for w in (0, 2)
                        for k, p in [("Mean", {}), ("Std", {}), ("Skewness", {}), ("Kurtosis", {}),
                                     ("Moment", {"k": 1}), ("Moment", {"k": 3})]] +
                       [(k, dict(p, d=d)) for d in (0.5, 0.25)
                        for k, p in [("EWMA", {}), ("EWMStd", {}), ("EWMMoment", {"k": 3})]])


def joint_metrics():
    return metric_pool([(k, {"w": w}) for w in (0, 2, 3) for k in ("Cov", "Corr")] +
                       [(k, {"d": d}) for d in (0.5, 0.25) for k in ("EWMCov", "EWMCorr")])


MERGES = {"C15": [("moment", moment_pool, 2, 2, 220),
                  ("moment", lambda: moment_pool((None, 0, 2), (None, 0.5), ((), (2,), (3,))), 3, 3, 150),
                  ("joint", joint_pool, 2, 2, 300),
                  ("joint", lambda: joint_pool((None, 2), (None,), (None, 2)), 3, 3, 150),
                  ("moment", moment_metrics, 2, 3, 170), ("joint", joint_metrics, 2, 3, 100)]}


GROUPS = {
    "C01": ([moments, lambda: core_group("moment core", {"dom": "moment", "w": 2, "sums": [[4]]}, ONE)], 5, 7),
    "C02": ([weighted, lambda: core_group("weighted core", {"dom": "moment", "w": 0, "d": 0.5, "sums": [[4]]}, ONE)], 5, 7),
    "C03": ([joint, lambda: core_group("joint core", {"dom": "joint", "w": 2, "sums": [[2, 1], [0, 2]]}, TWO)], 4, 6),
    "C04": ([weighted_joint, lambda: core_group("weighted joint core",
                                                {"dom": "joint", "w": 0, "d": 0.5, "sums": [[2, 1]]}, TWO)], 4, 6),
    "C05": ([lagged], 6, 7),
    "C06": ([extremes], 4, 6),
    "C07": ([quantiles], 4, 6),
    "C08": ([heap_median], 5, 7),
    "C09": ([medians], 4, 6),
    "C12": ([cleared], 4, 5),
    "C13": ([rejected, bad_core], 4, 5),
    "C15": ([shared, shared_joint], 4, 6),
    "C18": ([aggregate, joint_aggregate], 4, 5),
    "C28": ([same], 4, 6),
    "C29": ([lambda: core_group("univariate", {"dom": "moment", "w": 2, "sums": [[3]]}, ONE),
             lambda: core_group("bivariate", {"dom": "joint", "w": 2, "sums": [[2, 1], [0, 2]]}, TWO[:2])], 3, 5),
}


def enumerated(prop, per=250):
    make, quick, thorough = GROUPS[prop]
    return behaviours([m() for m in make], quick, thorough, per)


def merged(prop):
    return merges(MERGES[prop])
