"""Builds the harness from /repo, runs it, and validates its traces with TLC."""
import json
import os
import re
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")      # another tree only for experiments
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


def goenv():
    env = dict(os.environ)
    env.update(HOME="/root", GOROOT="/opt/veriftools/go1.27.3", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               CGO_ENABLED="1")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


def run(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    except subprocess.TimeoutExpired:
        raise CheckError(f"timeout of {cmd[:3]}")


def build_java():
    src = os.path.join(ROOT, "java", "vp", "RatOverrides.java")
    out = os.path.join(BUILD, "java", "vp", "RatOverrides.class")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(os.path.join(BUILD, "java"), exist_ok=True)
        p = run(["javac", "-d", os.path.join(BUILD, "java"), "-cp", TLA, src])
        if p.returncode:
            raise CheckError("javac: " + p.stdout)


def write_modfile(work, repo=REPO, extra=""):
    """a go.mod for the harness that takes the library from `repo`"""
    mod = open(os.path.join(REPO, "go.mod")).read()
    reqs = mod[mod.index("require"):]
    path = os.path.join(work, "harness.mod")
    with open(path, "w") as f:
        f.write("module vp\n\ngo 1.18\n\nrequire github.com/alexander-yu/stream v0.0.0\n\n"
                f"replace github.com/alexander-yu/stream => {repo}\n{extra}\n{reqs}")
    with open(os.path.join(work, "harness.sum"), "w") as f:
        f.write(open(os.path.join(REPO, "go.sum")).read())
    return path


def build_driver(work, cmd="driver", race=False, tags="", repo=REPO, extra="", out=None):
    mod = write_modfile(work, repo, extra)
    out = out or os.path.join(work, cmd + ("-race" if race else ""))
    args = ["go", "build", "-modfile=" + mod, "-o", out]
    if race:
        args.append("-race")
    if tags:
        args += ["-tags", tags]
    p = run(args + ["./cmd/" + cmd], cwd=os.path.join(ROOT, "harness"), env=goenv(), timeout=800)
    if p.returncode:
        raise CheckError(f"build of the harness from /repo failed:\n{p.stdout[-3000:]}")
    return out


def write_ndjson(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, separators=(",", ":")))
            f.write("\n")


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(line) for line in f]


def tlc(module, work, env=None, cfg=None, mem="6g", workers=8, timeout=800, args=(), props=()):
    """run TLC on a module of /verif/spec; returns its output"""
    e = dict(os.environ)
    e.update(env or {})
    meta = os.path.join(work, f"tlc-{module}-{time.time_ns()}")
    os.makedirs(meta)
    cmd = (["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + meta,
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.RatOverrides",
            *props, "-cp", f"{BUILD}/java:{TLA}:{CM}", "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
            "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"])
    t = time.time()
    p = run(cmd, cwd=SPEC, env=e, timeout=timeout)
    out = p.stdout
    subprocess.run(["rm", "-rf", meta])
    return Tlc(module, p.returncode, out, time.time() - t)


class Tlc:
    def __init__(self, module, rc, out, wall):
        self.module, self.rc, self.out, self.wall = module, rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out

    def prints(self, tag):
        """the tuples printed by PrintT(<<tag, ints...>>)"""
        return [tuple(int(x) for x in m.split(",")) for m in
                re.findall(r'<<"' + tag + r'", ([-0-9, ]+)>>', self.out)]

    def tail(self, n=3000):
        i = self.out.find("Error:")
        return self.out[i:i + n] if i >= 0 else self.out[-n:]


def validate(traces_path, ntraces, work, module="MetricTrace", timeout=800, mem="8g", env=None):
    """validate all traces of a file; returns (list of (index, position) of rejections, Tlc)"""
    e = {"TRACES": traces_path}
    e.update(env or {})
    t = tlc(module, work, env=e, timeout=timeout, mem=mem)
    if not t.ok:
        raise CheckError(f"TLC failed on {traces_path}:\n{t.tail()}")
    acc = {a[0] for a in t.prints("ACCEPTED")}
    rej = {a[0]: a[1] for a in t.prints("REJECTED")}
    if len(acc | set(rej)) != ntraces or acc & set(rej):
        raise CheckError(f"TLC decided {len(acc)}+{len(rej)} of {ntraces} traces")
    return sorted(rej.items()), t
