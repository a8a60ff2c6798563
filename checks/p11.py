"""P11: structures that die return all their extents; counts always agree."""
from vlib import plans, space
from vlib.tracecheck import validate_runs

PLAN = [("mem", "rel", 150, 1500), ("small", "rel", 200, 2500), ("fan4", "rel", 250, 3000), ("bg", "rel", 250, 3000),
        ("tinycache", "rel", 250, 2500), ("log", "rel", 150, 1500), ("log", "dbg", 100, 700), ("reclaim", "rel", 200, 2500),
        ("shmem", "rel", 150, 2000), ("deep", "rel", 300, 4000), ("deepvar", "dbg", 250, 3000),
        ("deepbr", "rel", 300, 4000), ("filt", "rel", 250, 2500), ("wrap", "rel", 250, 2500),
        ("oddsize", "rel", 250, 2500), ("bg", "ctl", 200, 1200), ("fan4", "ctl", 200, 1000)]


def run(ctx):
    q = ctx.quick
    validate_runs(ctx, space.mini_runs(ctx, 12 if q else 200, 300 if q else 600), "Mini", space.MINI, jvms=6)
    validate_runs(ctx, space.alloc_runs(ctx, 12 if q else 200, 800 if q else 3000), "Alloc", space.ALLOC, jvms=6)
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, walk=0.002, reopen=0.003)
    validate_runs(ctx, space.kv_runs(ctx, progs), "Space", space.cfg(("use", "back")), jvms=6)
