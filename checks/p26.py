"""P26: every operation returns, every close completes."""
from vlib.conc import Hist, history_lines, run_histories
from checks.p07 import TUNE, BG11, BG12, BG24, seq

PLAN = [  # sustained writes with little memory
    ("rel", BG11, seq(12000, 2, tune=TUNE)),
    ("rel", BG11, seq(20000, 3, 1)),
    ("rel", BG12, seq(12000, 1, 2, tune=TUNE)),
    ("rel", BG24, seq(16000, 4, 3)),
    ("dbg", BG11, seq(8000, 2, tune=TUNE)),
    ("dbg", BG12, seq(9000, 3, 2)),
    ("sched", BG11, seq(8000, 2, tune=TUNE)),
    ("ctl", BG11, seq(6000, 2, tune=TUNE)),
    ("ctl", dict(), seq(6000, 3, 2)),
    ("rel", dict(cache_size=6 << 20), dict(threads=8, nops=2500)),
    ("rel", BG11, dict(threads=8, scanners=1, nops=2500)),
    ("rel", dict(BG12, cache_size=6 << 20), dict(threads=4, nops=3500, tune=TUNE)),
    ("rel", BG24, dict(threads=12, scanners=2, nops=1200)),
    ("dbg", dict(), dict(threads=6, nops=900)),
    ("dbg", BG11, dict(threads=4, nops=900)),
    ("sched", BG12, dict(threads=6, nops=900)),
    ("sched", dict(cache_size=6 << 20), dict(threads=6, scanners=1, nops=900)),
    ("ctl", dict(), dict(threads=4, nops=700)),
    ("ctl", BG11, dict(threads=3, nops=700)),
    ("ctl", BG12, dict(threads=3, scanners=1, nops=600)),
    ("ctl", dict(BG24, cache_size=6 << 20), dict(threads=2, nops=900)),
    ("ctl", dict(use_log=1), dict(threads=5, nops=500, tune=TUNE)),
]


def run(ctx):
    reps = 1 if ctx.quick else 10
    hs = []
    for r in range(reps):
        for i, (fl, over, args) in enumerate(PLAN):
            rng = ctx.rng(i, r)
            args = dict(dict(scanners=0), **args)
            if fl == "ctl":
                args["perturb"] = rng.choice((100, 300, 1000, 5000, 20000))
            if "vals" not in args and rng.random() < 0.5:  # mostly long values: memtables fill quickly
                args["vals"] = (200, 300, 1000, 2400)
            hs.append(Hist(ctx, "p26-%d-%d" % (i, r), history_lines(rng, over, **args), fl, timeout=60))
    run_histories(ctx, hs, progress_only=True, drivers=3)
