"""P16: logs."""
import os
from vlib import space
from vlib.tracecheck import Run, validate_runs

CFG = "SPECIFICATION TSpec\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    q = ctx.quick
    rng = ctx.rng("log")
    exes = {fl: ctx.prog("logdrv", fl, srcs=["logdrv.c", "vf_alloc.c"], ldextra=space.WRAPS)
            for fl in ("rel", "dbg", "ctl", "asan")}
    runs = []
    for i in range(24 if q else 240):
        fl = ("ctl", "rel", "dbg", "ctl", "rel", "asan")[i % 6]
        thr = rng.choice((1, 2, 3, 5, 8))
        big = rng.choice((20, 200, 200, 800, 3800))
        # (the trace of a program grows with the sum of these)
        nops = rng.choice((60, 150, 300)) // thr + 20
        if big > 500:
            nops = nops // 2 + 10
        rounds = rng.choice((1, 2, 4))
        exts = (rounds * thr * nops * (100 + big) // 131072 + 12)
        dev = "%s/log%d.db" % (ctx.shm, i)
        t = "%s/log%d.ndjson" % (ctx.work, i)

        def clean(dev=dev):
            if os.path.exists(dev):
                os.unlink(dev)
        runs.append(Run(ctx, "log%d-%s" % (i, fl),
                        [exes[fl], dev, str(rng.getrandbits(30)), str(thr), str(nops), str(rounds),
                         str(big), str(rng.choice((8, 30, 200))), str(2 * thr + rng.choice((6, 10, 30))),
                         str(exts), t],
                        t, conc=True, before=clean, after=clean, timeout=30))
    validate_runs(ctx, runs, "Log", CFG, jvms=6)
