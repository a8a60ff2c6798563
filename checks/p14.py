"""P14: filters never hide a key."""
import os
from vlib.core import Violation, InfraError
from vlib.tracecheck import Run, validate_runs

CFG = "SPECIFICATION TSpec\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
KNOWN = "hash functions that leave the upper 16 bits of 3000 hashes zero: filter pages overrun"


def run(ctx):
    q = ctx.quick
    rng = ctx.rng("filter")
    exes = {fl: ctx.prog("filterdrv", fl) for fl in ("rel", "dbg", "asan")}

    def mk(i, fl, hk, fp, li, scale, steps=None):
        t = "%s/f%d.ndjson" % (ctx.work, i)
        dev = "%s/f%d.db" % (ctx.shm, i)

        def clean():
            if os.path.exists(dev):
                os.unlink(dev)
        steps = steps or rng.choice((30, 60, 120))
        cache = rng.choice((256, 512, 1024))
        return Run(ctx, "filter%d-%s" % (i, fl), [exes[fl], dev] + [str(x) for x in (
            rng.getrandbits(30), hk, fp, li, steps, scale, cache, i % 2)] + [t], t, before=clean, after=clean, timeout=60)

    runs = []
    for i in range(56 if q else 800):
        fl = ("rel", "dbg", "rel", "asan")[i % 4]
        hk = (0, 0, 1, 2, 3, 4, 5, 6)[rng.randrange(8)]
        scale = rng.choice((3, 50, 700, 2000, 6000, 20000))
        fp, li = rng.choice(((27, 9), (26, 9), (26, 8), (22, 9), (20, 8), (24, 7), (27, 6), (18, 8), (19, 9)))
        runs.append(mk(i, fl, hk, fp, li, scale))
    # documented defect: see known-findings.txt
    bad = mk(9999, "rel", 7, 26, 9, 3000, 40)
    try:
        validate_runs(ctx, [bad], "Filter", CFG)
        print("NOTE: not seen: " + KNOWN)
    except (Violation, InfraError):
        ctx.extra["known_finding_seen"] = KNOWN  # (core prints the lines of known-findings.txt)
    validate_runs(ctx, runs, "Filter", CFG, jvms=6)
