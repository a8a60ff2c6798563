"""P07: concurrent point operations are linearizable."""
from vlib.conc import Hist, history_lines, run_histories

# node limits stay well above the memtable capacity: the trunk is not meant for less
TUNE = (1280 << 10, 640 << 10, 8, 0)
BG11 = dict(num_memtable_bg_threads=1, num_normal_bg_threads=1)
BG12 = dict(num_memtable_bg_threads=1, num_normal_bg_threads=2)
BG24 = dict(num_memtable_bg_threads=2, num_normal_bg_threads=4)
def seq(nkeys, threads, pattern=1, **kw):
    return dict(dict(nkeys=nkeys, threads=threads, scanners=0, rounds=1, nops=int(nkeys * 1.3) // threads,
                     pattern=pattern, vals=(10, 60, 1000, 1000)), **kw)


PLAN = [  # flavour, config, arguments
    ("rel", BG11, seq(6000, 2, tune=TUNE)),
    ("rel", BG12, seq(7000, 2, 2)),
    ("ctl", BG11, seq(4000, 2, 3, tune=TUNE)),
    ("sched", dict(), dict(threads=4)),
    ("sched", BG11, dict(threads=4)),
    ("sched", BG12, dict(threads=3, tune=TUNE)),
    ("sched", dict(), dict(threads=6, nops=700, tune=TUNE)),
    ("sched", dict(cache_size=6 << 20), dict(threads=4)),
    ("rel", dict(), dict(threads=6, nops=900, tune=TUNE)),
    ("rel", BG12, dict(threads=6, nops=900)),
    ("rel", dict(use_log=1), dict(threads=8, nops=500)),
    ("rel", dict(), dict(threads=2, nops=2500)),
    ("dbg", BG24, dict(threads=6, nops=500)),
    ("ctl", dict(), dict(threads=2, nops=500)),
    ("ctl", dict(), dict(threads=3, nops=400)),
    ("ctl", BG11, dict(threads=3, nops=400)),
    ("ctl", BG12, dict(threads=4, nops=400)),
    ("ctl", dict(cache_size=6 << 20), dict(threads=3, nops=600, tune=TUNE)),
    ("ctl", BG24, dict(threads=2, nops=600)),
]


def run(ctx):
    reps = 1 if ctx.quick else 12
    hs = []
    for r in range(reps):
        for i, (fl, over, args) in enumerate(PLAN):
            rng = ctx.rng(i, r)
            if fl == "ctl":
                args = dict(args, perturb=rng.choice((60, 200, 1000, 5000, 20000)))
            hs.append(Hist(ctx, "p07-%d-%d" % (i, r), history_lines(rng, over, **dict(args, scanners=0)), fl))
    run_histories(ctx, hs, points=True, scans=False)
