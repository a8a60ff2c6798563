"""P20: memory from the shared segment."""
import os
from vlib.tracecheck import Run, validate_runs

CFG = "SPECIFICATION TSpec\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    q = ctx.quick
    rng = ctx.rng("shm")
    exes = {fl: ctx.prog("shmdrv", fl, ldextra=["-Wl,--wrap=shmat"]) for fl in ("rel", "dbg", "ctl")}
    runs = []
    for i in range(48 if q else 600):
        fl = ("ctl", "rel", "dbg")[i % 3]
        thr = (1, 2, 3, 5, 8)[i % 5]
        t = "%s/shm%d.ndjson" % (ctx.work, i)
        runs.append(Run(ctx, "shm%d-%s" % (i, fl),
                        [exes[fl], str(rng.getrandbits(30)), str(thr), str(rng.choice((200, 600, 1200)) // thr),
                         str(rng.choice((5, 20, 100, 500))), str(rng.choice((6, 20, 40))), str(rng.choice((0, 10, 40, 80))),
                         str(rng.choice((1, 4, 16, 100))), t], t, conc=True, timeout=40))
    validate_runs(ctx, runs, "Heap", CFG, jvms=6)
