"""P02: every update is merged exactly once, in order."""
from vlib import plans
from vlib.kv import run_programs

U = dict(weights=dict(i=12, u=55, d=8, l=25), walk=0.003, sweep=1500)
PLAN = [("mem", "rel", 120, 2500), ("small", "rel", 120, 3500), ("fan4", "rel", 200, 3500),
        ("bg", "rel", 200, 4000), ("log", "rel", 100, 2000), ("rev", "rel", 150, 3000),
        ("deep", "rel", 200, 4000, dict(rotate=0.06)), ("deepvar", "dbg", 200, 4000, dict(rotate=0.06)),
        ("deepbr", "rel", 200, 4000, dict(rotate=0.12)), ("deepbr", "dbg", 60, 3000, dict(rotate=0.2))]


def run(ctx):
    q = ctx.quick
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, **U)
    run_programs(ctx, progs, ("write", "lookup", "scan", "life"))
