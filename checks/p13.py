"""P13: page locks exclude: readers never see a page mid-change."""
from checks.p12 import cache_run, CFG
from vlib.tracecheck import validate_runs


def run(ctx):
    q = ctx.quick
    rng = ctx.rng("runs")
    runs = []
    for fl in ("ctl", "rel", "dbg"):
        ctx.prog("cachedrv", fl)
    for i in range(110 if q else 1500):
        fl = "ctl" if i % 4 else ("rel", "dbg")[i // 4 % 2]
        thr = rng.choice((2, 2, 3, 4, 6))
        # a few pages everybody wants; sometimes next to many others
        if i % 5:
            slots, pages, hot = rng.choice((1, 1, 2)), 64 * (thr + 3), rng.choice((1, 2, 3, 5))
        else:
            slots, pages, hot = 4 * thr + 10, 64 * (2 * thr + 4), 0
        runs.append(cache_run(ctx, "pl%d-%s" % (i, fl), fl, rng.getrandbits(40), thr, (500 if q else 1500) // thr,
                              2, slots, pages, hot, rng.choice((4, 10, 30, 100, 400))))
    validate_runs(ctx, runs, "PageCache", CFG, jvms=6)
