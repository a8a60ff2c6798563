"""P12: the page cache always returns the page's latest contents."""
import os
from vlib.tracecheck import Run, validate_runs

CFG = "SPECIFICATION TSpec\nINVARIANTS Exclusive OneClaim\nPOSTCONDITION Accepted\nVIEW View\nCHECK_DEADLOCK FALSE\n"


MODEL = """SPECIFICATION Spec
CONSTANTS Users = {"u1","u2"} Pages = {1,2} Entries = %s MaxVer = 3 Ops = 2
INVARIANTS Mapped
CHECK_DEADLOCK FALSE
"""


def cache_run(ctx, name, fl, seed, thr, ops, rounds, slots, pages, hot, mean):
    dev = "%s/%s.db" % (ctx.shm, name)
    t = "%s/%s.ndjson" % (ctx.work, name)

    def clean():
        if os.path.exists(dev):
            os.unlink(dev)
    cmd = [ctx.prog("cachedrv", fl), dev] + [str(x) for x in (seed, thr, ops, rounds, slots, pages, hot, mean)] + [t]
    return Run(ctx, name, cmd, t, conc=True, before=clean, after=clean, timeout=90)


def run(ctx):
    q = ctx.quick
    ctx.model("ClockCache", MODEL % ("{1}" if q else "{1,2}"), timeout=900)
    rng = ctx.rng("runs")
    runs = []
    for fl in ("ctl", "rel", "dbg"):
        ctx.prog("cachedrv", fl)
    for i in range(18 if q else 300):
        fl = ("ctl", "rel", "dbg")[i % 3]
        thr = rng.choice((1, 2, 3, 4))
        # far more pages than the cache holds
        pages, slots = rng.choice(((64 * (2 * thr + 4), 14 + 4 * thr), (64 * (2 * thr + 4), 4 * thr + 9), (1024, 36)))
        runs.append(cache_run(ctx, "pc%d-%s" % (i, fl), fl, rng.getrandbits(40), thr, (700 if q else 2500) // thr,
                              rng.choice((2, 3, 4)), slots, pages, 0, rng.choice((20, 60, 200, 1000, 5000))))
    validate_runs(ctx, runs, "PageCache", CFG, jvms=6)
