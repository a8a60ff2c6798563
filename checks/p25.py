"""P25: merging sorted sources."""
import itertools
from vlib.tracecheck import Run, validate_runs

CFG = "SPECIFICATION TSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def inputs(S, K):
    for t in itertools.product("-iud", repeat=S * K):
        yield ["".join(t[s * K:(s + 1) * K]) for s in range(S)]


def run(ctx):
    q = ctx.quick
    rng = ctx.rng("walk")
    lines = []
    total = 0
    for S, K, keep, moves in ((1, 3, 1.0, 10), (2, 2, 1.0, 12), (2, 3, 0.08 if q else 1.0, 14),
                              (3, 2, 0.08 if q else 1.0, 12), (4, 2, 0.004 if q else 0.1, 14),
                              (3, 3, 0.001 if q else 0.02, 16), (3, 4, 0, 18), (5, 3, 0, 16)):
        if keep:
            it = inputs(S, K)
        else:
            it = (["".join(rng.choice("--iud") for _ in range(K)) for _ in range(S)] for _ in range(300 if q else 6000))
        for src in it:
            total += 1
            for mode in ("full", "inter", "raw"):
                for start in range(0, K + 2):
                    for fwd in (1, 0):
                        if mode == "raw" and not fwd:
                            continue
                        if keep and rng.random() > keep or not keep and rng.random() > 0.25:
                            continue
                        lines.append("%s %d %d %d %d %d %d %s" % (mode, start, fwd, rng.getrandbits(31), moves, S, K,
                                                                  " ".join(src)))
    for fl in ("rel", "dbg"):
        ctx.prog("mergedrv", fl, cextra=["-DHAVE_DIRECTED"], fallback=[])
    n = 10 if q else 40
    runs = []
    for i in range(n):
        fl = "dbg" if i % 2 else "rel"
        p = ctx.work + "/m%d.in" % i
        with open(p, "w") as f:
            f.write("\n".join(lines[i::n]) + "\n")
        t = ctx.work + "/m%d.ndjson" % i
        runs.append(Run(ctx, "merge%d-%s" % (i, fl), [ctx.prog("mergedrv", fl), p, t], t, files=[p]))
    validate_runs(ctx, runs, "MergeTrace", CFG, reset=None)
    ctx.extra["walks"] = len(lines)
