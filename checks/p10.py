"""P10: space in use is never handed out again."""
from vlib import plans, space
from vlib.tracecheck import validate_runs

SCAN = """SPECIFICATION Spec
CONSTANTS Threads = %s N = 3 Calls = 2
INVARIANTS OneOwner Counted FailRule
CHECK_DEADLOCK FALSE
"""
PLAN = [("small", "rel", 200, 2000), ("fan4", "ctl", 200, 900), ("bg", "rel", 250, 3000), ("wrap", "rel", 250, 2500),
        ("deep", "rel", 300, 3000), ("deepvar", "dbg", 250, 2500), ("deepbr", "rel", 300, 2500), ("log", "rel", 150, 1200),
        ("tinycache", "rel", 250, 2000), ("bg", "ctl", 200, 1200)]


def run(ctx):
    q = ctx.quick
    ctx.model("AllocScan", SCAN % ("{1,2}" if q else "{1,2,3}"), timeout=1500)
    validate_runs(ctx, space.alloc_runs(ctx, 30 if q else 400, 1200 if q else 3000), "Alloc", space.ALLOC, jvms=6)
    validate_runs(ctx, space.mini_runs(ctx, 9 if q else 150, 250 if q else 600), "Mini", space.MINI, jvms=6)
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, walk=0.002, reopen=0.002)
    validate_runs(ctx, space.kv_runs(ctx, progs), "Space", space.cfg(("use",)), jvms=6)
