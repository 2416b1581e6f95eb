"""Design models: TLC checks specifications of the library's algorithms."""
from .engine import CheckError, tlc


def model(module, quick=None, thorough=None, timeout=700, mem="8g", workers=8):
    """a part that model checks a module; quick and thorough name configurations"""
    def part(ctx):
        cfg = (thorough if ctx.tier == "thorough" and thorough else quick) or module + ".cfg"
        t = tlc(module, ctx.work, cfg=cfg, timeout=timeout, mem=mem, workers=workers)
        if not t.ok:
            raise CheckError(f"model {module} ({cfg}) does not hold:\n{t.tail()}")
        ctx.count(t)
        ctx.models.append({"module": module, "cfg": cfg, "distinct": t.distinct, "generated": t.generated,
                           "wall_s": round(t.wall, 1)})
    part.__name__ = "model " + module
    return part
