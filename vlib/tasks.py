"""Histories of the task system, checked against Tasks.tla and ThreadIds.tla."""
import os
from .tracecheck import Run, validate_runs

TASKS = "SPECIFICATION TSpec\nINVARIANT Track\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
IDS = "SPECIFICATION TSpec\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Max = 64\n"


def _runs(ctx, mode, n, flavours, args):
    exes = {fl: ctx.prog("taskdrv", fl) for fl in set(flavours)}
    rng = ctx.rng("task" + mode)
    runs = []
    for i in range(n):
        fl = flavours[i % len(flavours)]
        dev = "%s/%s%d.db" % (ctx.shm, mode, i)
        t = "%s/%s%d.ndjson" % (ctx.work, mode, i)

        def clean(dev=dev):
            if os.path.exists(dev):
                os.unlink(dev)
        runs.append(Run(ctx, "%s%d-%s" % (mode, i, fl), [exes[fl], dev, mode] + [str(a) for a in args(rng)] + [t], t,
                        conc=True, before=clean, after=clean, timeout=40))
    return runs


def task_runs(ctx, n):
    def args(rng):
        thr = rng.choice((1, 2, 3, 4))
        b1, b2 = rng.choice(((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 3)))
        return [rng.getrandbits(30), thr, rng.choice((60, 150, 240)) // thr, rng.choice((5, 20, 100, 500)), b1, b2,
                rng.choice((0, 30, 60))]
    runs = _runs(ctx, "t", n, ("ctl", "rel", "ctl", "dbg", "ctl", "asan"), args)
    validate_runs(ctx, runs, "Tasks", TASKS, jvms=6, timeout=300)


def id_runs(ctx, n):
    def args(rng):
        thr = rng.choice((2, 3, 5, 8, 12))
        return [rng.getrandbits(30), thr, rng.choice((12, 100, 300)) // thr, rng.choice((5, 20, 100, 500)), 0, 0,
                rng.choice((0, 5, 30, 55, 58, 60, 62))]
    runs = _runs(ctx, "i", n, ("ctl", "rel", "ctl", "dbg", "ctl", "asan"), args)
    validate_runs(ctx, runs, "ThreadIds", IDS, jvms=6)
