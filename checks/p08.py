"""P08: scans beside writers return a consistent, ordered view."""
from vlib.conc import Hist, history_lines, run_histories
from checks.p07 import TUNE, BG11, BG12

PLAN = [
    ("sched", dict(), dict(threads=3, scanners=2)),
    ("sched", BG11, dict(threads=3, scanners=2, tune=TUNE)),
    ("sched", dict(cache_size=6 << 20), dict(threads=3, scanners=2)),
    ("rel", BG12, dict(threads=4, scanners=2, nops=900)),
    ("rel", dict(), dict(threads=4, scanners=3, nops=900, tune=TUNE)),
    ("rel", dict(cmp=1), dict(threads=4, scanners=3, nops=700)),
    ("dbg", dict(), dict(threads=4, scanners=2, nops=400)),
    ("ctl", dict(), dict(threads=2, scanners=1, nops=600, scans=20)),
    ("ctl", BG11, dict(threads=2, scanners=2, nops=500)),
    ("ctl", BG12, dict(threads=2, scanners=1, nops=600)),
    ("ctl", dict(cache_size=6 << 20), dict(threads=3, scanners=2, nops=400)),
]


def run(ctx):
    reps = 1 if ctx.quick else 12
    hs = []
    for r in range(reps):
        for i, (fl, over, args) in enumerate(PLAN):
            rng = ctx.rng(i, r)
            if fl == "ctl":
                args = dict(args, perturb=rng.choice((60, 200, 1000, 5000, 20000)))
            hs.append(Hist(ctx, "p08-%d-%d" % (i, r), history_lines(rng, over, **dict(dict(scans=14), **args)), fl))
    run_histories(ctx, hs, points=False, scans=True)
