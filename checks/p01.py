"""P01: a lookup returns the latest value."""
from vlib import plans
from vlib.kv import run_programs

PLAN = [("mem", "rel", 200, 2500), ("small", "dbg", 250, 3500), ("fan4", "rel", 300, 4500),
        ("wide", "rel", 250, 3500), ("bg", "rel", 300, 5000), ("tinycache", "rel", 300, 4500),
        ("weakhash", "rel", 300, 3500), ("log", "rel", 200, 2500), ("deep", "dbg", 300, 4500),
        ("deepvar", "rel", 300, 4500), ("deepbr", "rel", 300, 4500), ("filt", "rel", 300, 4000)]


def run(ctx):
    q = ctx.quick
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, walk=0.0005,
                       weights=dict(i=40, u=8, d=14, l=38), sweep=1500)
    run_programs(ctx, progs, ("write", "lookup", "life"))
