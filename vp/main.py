"""check.py PROPERTY | check.py --replay FILE"""
import json
import os
import shutil
import sys
import tempfile
import time

from . import engine, traces
from .engine import BUILD, ROOT, CheckError


class Ctx:
    """a run of a check"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"{prop}-", dir=BUILD)
        self.t0 = time.time()
        self.violations = []
        self.states = self.transitions = self.ntraces = 0
        self.samples = []
        self.models = []
        self.extra = {}
        self._driver = None
        self.findings = {}

    def driver(self):
        if not self._driver:
            self._driver = engine.build_driver(self.work)
        return self._driver

    def elapsed(self):
        return time.time() - self.t0

    def count(self, tlc, traces=0):
        self.states += tlc.distinct
        self.transitions += tlc.generated
        self.ntraces += traces

    def sample(self, tr):
        if len(self.samples) < 3:
            ev = tr["ev"][:6]
            self.samples.append(json.loads(json.dumps(dict(tr, ev=ev))))

    def note(self, **kw):
        """counts of what was covered, added up"""
        for k, v in kw.items():
            self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, (int, float)) else v

    def known(self, text):
        """an instance of a known finding"""
        if text not in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {text}", flush=True)
        self.findings[text] = self.findings.get(text, 0) + 1

    def violation(self, what, replay):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{self.seed}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump(dict(replay, property=self.prop, what=what), f, indent=1)
        self.violations.append((what, path))

    def evidence(self, check):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.ntraces, "samples": self.samples}
        if self.models:
            cov["models"] = self.models
        if self.findings:
            cov["known_findings"] = [{"what": k, "histories": n} for k, n in self.findings.items()]
        cov.update(self.extra)
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": check.get("assumptions", []),
                       "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}, f, indent=1)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    ctx = Ctx(rep["property"], "quick", 1)
    try:
        engine.build_java()
        from .checks import REPLAYS
        REPLAYS[rep["kind"]](ctx, rep)
        for what, _ in ctx.violations:
            print(what)
        print("REJECTED" if ctx.violations else "ACCEPTED")
        return 1 if ctx.violations else 0
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    from .checks import CHECKS
    prop = argv[0]
    check = CHECKS[prop]
    ctx = Ctx(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        engine.build_java()
        for part in check["parts"]:
            t = time.time()
            part(ctx)
            print(f"{prop} {part.__name__}: {time.time() - t:.1f} s, {ctx.ntraces} traces, {ctx.states} states so far",
                  flush=True)
            if ctx.violations:
                break
        ctx.evidence(check)
        for what, path in ctx.violations:
            print(what)
        for _, path in ctx.violations:
            print(f"VIOLATION property={prop} replay={path}")
        return 1 if ctx.violations else 0
    except CheckError as e:
        print(f"ERROR of the check {prop}: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
