"""P03: a scan visits every live key from its start exactly once, in order."""
from vlib import plans
from vlib.kv import run_programs

PLAN = [("mem", "rel", 200, 1500), ("small", "rel", 250, 2500), ("fan4", "rel", 300, 3500),
        ("wide", "rel", 250, 3000), ("bg", "rel", 250, 4000), ("tinycache", "rel", 300, 3500),
        ("le", "rel", 250, 3000), ("deep", "rel", 300, 4000), ("deepvar", "dbg", 300, 4000),
        ("deepbr", "rel", 300, 4000), ("deep", "dbg", 60, 3000, dict(rotate=0.15))]


def fwd(rng, walklen):
    # forward scans of all lengths; long ones as often as short ones
    return "%dN" % rng.choice((1, 3, 10, 60, 400))


def run(ctx):
    q = ctx.quick
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, walk=0.012, walkfn=fwd,
                       weights=dict(i=50, u=12, d=33, l=5))
    run_programs(ctx, progs, ("scan", "move"))
