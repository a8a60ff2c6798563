"""P24: the batched reader-writer lock."""
from vlib.tracecheck import Run, validate_runs

CFG = "SPECIFICATION TSpec\nINVARIANT Excl\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
MODEL = ("SPECIFICATION Spec\nCONSTANTS T = {%s}\nINVARIANTS Exclusion OneClaim Counters Bits\n%s"
         "CHECK_DEADLOCK FALSE\n")


def run(ctx):
    q = ctx.quick
    ctx.model("RWLock", MODEL % ("1,2,3", ""))
    ctx.model("RWLock", MODEL % ("1,2", "PROPERTY LockComes\n"))
    if not q:
        ctx.model("RWLock", MODEL % ("1,2,3", "PROPERTY LockComes\n"), timeout=900)
    rng = ctx.rng("runs")
    runs = []
    for fl in ("ctl", "rel", "dbg"):
        ctx.prog("rwlockdrv", fl)
    n = 80 if q else 1500
    for i in range(n):
        fl = "ctl" if i % 4 else ("rel", "dbg")[i // 4 % 2]
        thr = rng.choice((2, 2, 3, 4, 6))
        ops = (1500 if q else 4000) // thr
        t = ctx.work + "/r%d.ndjson" % i
        cmd = [ctx.prog("rwlockdrv", fl), str(rng.getrandbits(40)), str(thr), str(ops), str(rng.choice((1, 1, 2, 3))),
               str(rng.choice((4, 10, 30, 100, 400))), t]
        runs.append(Run(ctx, "rw%d-%s" % (i, fl), cmd, t, conc=True))
    validate_runs(ctx, runs, "RWLockTrace", CFG)
