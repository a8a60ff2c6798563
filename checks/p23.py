"""P23: the application's comparison function alone decides the key order."""
from vlib import plans
from vlib.kv import run_programs, ALL

B = dict(merge=1)
PLAN = [("rev", "rel", 300, 3000), ("le", "rel", 300, 3000), ("fan4", "rel", 300, 3000, dict(over=dict(cmp=3))),
        ("deepvar", "rel", 300, 4000, dict(over=dict(cmp=1, hash=1))),
        ("deepvar", "dbg", 300, 3500, dict(over=dict(cmp=2, hash=2))),
        ("deepvar", "rel", 300, 4000, dict(over=dict(cmp=3))),
        ("deepbr", "rel", 300, 3500, dict(over=dict(cmp=1))),
        ("deepbr", "rel", 300, 3500, dict(over=dict(cmp=2, hash=1))),
        ("deepbr", "dbg", 300, 3000, dict(over=dict(cmp=3))),
        ("stats", "rel", 300, 2500, dict(over=dict(cmp=2)))]


def run(ctx):
    q = ctx.quick
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, walk=0.006,
                       weights=dict(i=45, u=12, d=18, l=25), sweep=1500)
    run_programs(ctx, progs, ALL)
