"""P05: a clean close loses nothing: reopening brings back exactly the contents."""
from vlib import plans
from vlib.kv import run_programs

PLAN = [("mem", "rel", 150, 1500), ("small", "rel", 200, 3000), ("fan4", "rel", 250, 3500),
        ("bg", "rel", 250, 4000), ("tinycache", "rel", 250, 3500), ("log", "rel", 150, 2000),
        ("reclaim", "rel", 200, 3000), ("shmem", "rel", 150, 2000), ("deep", "rel", 300, 4000),
        ("deepvar", "dbg", 250, 4000), ("deepbr", "rel", 300, 4000), ("filt", "rel", 250, 3000),
        ("wrap", "rel", 250, 3500), ("oddsize", "rel", 250, 3000)]


def run(ctx):
    q = ctx.quick
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, walk=0.001, reopen=0.004,
                       reopen_read=True, weights=dict(i=50, u=15, d=20, l=15))
    run_programs(ctx, progs, ("lookup", "scan", "move", "life"), only_reopened=True)
