"""The checks, by property."""
from . import conc, locks
from .models import model
from .behave import enumerated, merged
from .tour import control, core_walk, heap_walk, order_walk, skip_walk, toured, window_walk
from .traces import check_scenarios, generated

ARITH = model("RatTest")

CHECKS = {}


def check(prop, *parts, assumptions=()):
    CHECKS[prop] = {"parts": list(parts), "assumptions": list(assumptions)}


EXACT = ("observations are finite floats whose powers neither overflow nor underflow",)


def incremental(quick, big, limits, faults, **base):
    """the formulas of the cores: all transitions between windows"""
    return [toured("Incremental", core_walk, limits[0], limits[1], maxlen=40, consts=quick, big=big),
            *[control("Incremental", dict(base, Fault=f'"{f}"'), "Defined") for f in faults]]


def spaces(*cs, **more):
    return [dict(more, Space=s, W=w) for s, w in cs]


FORMULAS = {
    "C01": incremental(spaces((1, 1), (1, 2), (1, 3), (2, 4)) + [{"Space": 2, "W": 0, "L": 4}],
                       spaces((1, 1), (1, 4), (1, 5), (3, 1), (3, 3), (3, 4), (2, 5), (2, 7)) + [{"W": 0, "L": 5}],
                       (250, 6000), ["stale", "moved", "terms"]),
    "C02": incremental([{"W": 0, "L": 4, "Decay": 3}, {"W": 0, "L": 4, "Decay": 7, "Space": 2}],
                       [{"W": 0, "L": 6, "Decay": d, "Space": s} for d in [1, 5, 9] for s in [1, 2]],
                       (250, 6000), ["first", "terms"], W=0, L=4, Decay=3),
    "C03": incremental(spaces((4, 1), (4, 2), (5, 3), (6, 2)),
                       spaces((4, 3), (4, 4), (5, 4), (5, 5), (6, 3), (6, 4)) + [{"W": 0, "L": 5, "Space": 4}],
                       (200, 5000), ["stale", "moved", "twice", "terms"], Space=4),
    "C04": incremental([{"W": 0, "L": 3, "Decay": 3, "Space": 4}, {"W": 0, "L": 3, "Decay": 6, "Space": 6}],
                       [{"W": 0, "L": 5, "Decay": d, "Space": s} for d in [1, 5, 9] for s in [4, 5, 6]],
                       (200, 5000), ["first", "terms"], W=0, L=3, Decay=3, Space=4),
    "C05": [],
}
for p, parts in FORMULAS.items():
    check(p, ARITH, *parts, enumerated(p), generated(p), assumptions=EXACT)
for p in ["C26", "C27"]:
    check(p, ARITH, generated(p), assumptions=EXACT)


def orders(mode, quick):
    return [toured("AVL", order_walk("AVL", mode), quick, 40000, big=[{"N": 9, "V": 5}, {"N": 7, "V": 7}]),
            toured("LLRB", order_walk("RB", mode), quick, 40000, big=[{"N": 9, "V": 5}, {"N": 7, "V": 7}]),
            control("LLRB", {"Repaired": "FALSE"}, "Balanced"),
            toured("SkipList", skip_walk(mode), quick, 40000, big=[{"N": 5, "V": 3}, {"N": 5, "V": 5, "L": 2}])]


check("C10", *orders("snap", 4000), generated("C10"))
check("C11", *orders("shape", 4000), generated("C11"))
check("C22", *orders("twice", 1500), generated("C22"))
check("C06", toured("MonoDeque", window_walk(["Min", "Max"]), 4000, 60000,
                    consts=[{"W": 1, "V": 3}, {"W": 2, "V": 3}, {"W": 3, "V": 3}, {"W": 4, "V": 3}],
                    big=[{"W": w, "V": v} for w, v in [(1, 4), (2, 5), (3, 5), (4, 5), (5, 4), (6, 3), (7, 2), (8, 2)]],
                    start="<<<<>>, <<>>>>"),
      enumerated("C06"), generated("C06"))
check("C08", toured("TwoHeaps", window_walk(["HeapMedian"]), 4000, 60000,
                    consts=[{"W": 0, "N": 5}, {"W": 1}, {"W": 2}, {"W": 3}, {"W": 4}],
                    big=[{"W": w, "V": v, "N": n} for w, v, n in
                         [(0, 3, 8), (0, 7, 5), (1, 3, 0), (2, 5, 0), (3, 5, 0), (4, 5, 0), (5, 4, 0), (6, 3, 0)]]),
      control("TwoHeaps", {"Repaired": "FALSE"}, "Answer"), enumerated("C08"), generated("C08"))
check("C25", toured("IndexedHeap", heap_walk, 4000, 60000, big=[{"N": 5, "V": 3}]), generated("C25"))
for p in ["C07", "C09", "C12", "C13", "C18", "C28", "C29"]:
    check(p, enumerated(p), generated(p))
check("C15", enumerated("C15"), merged("C15"), generated("C15"))
check("C14", generated("C14"))
SCHEDULES = ("schedules switch at statements and at operations of package sync; accesses within a statement are "
             "covered by the race detector",)
check("C16", conc.C16, assumptions=SCHEDULES)
check("C17", locks.deadlocks, conc.C17, assumptions=SCHEDULES)
check("C19", conc.C19, assumptions=SCHEDULES)
check("C20", generated("C20"), conc.C20, assumptions=SCHEDULES)
check("C21", model("Reservoir", thorough="ReservoirBig.cfg"), generated("C21", 1, 1),
      assumptions=("statistical: a deviation of more than 6.5 standard deviations from the probability is a violation",))
check("C23", generated("C23"), conc.C23, assumptions=SCHEDULES)
check("C24", conc.C24, assumptions=SCHEDULES)


def replay_scenario(ctx, rep):
    check_scenarios(ctx, [rep["scenario"]], "replay", rep.get("module", "MetricTrace"))


REPLAYS = {"scenario": replay_scenario, "concurrent": conc.replay}
