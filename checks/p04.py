"""P04: a cursor moves both ways over the live keys, turning around anywhere."""
from vlib import plans
from vlib.kv import run_programs

PLAN = [("mem", "rel", 60, 1500), ("small", "rel", 250, 2500), ("fan4", "rel", 300, 3500),
        ("bg", "rel", 250, 4000), ("rev", "rel", 250, 3000), ("tinycache", "rel", 250, 3000),
        ("deep", "rel", 300, 4000), ("deepvar", "dbg", 300, 4000), ("deepvar", "rel", 60, 3000, dict(rotate=0.1)),
        ("deepbr", "rel", 300, 4000), ("deep", "dbg", 40, 3000, dict(rotate=0.15))]


def turns(rng, walklen):
    style = rng.random()
    if style < 0.2:
        return "%dP" % rng.choice((1, 5, 50, 400))
    if style < 0.3:
        return "%dN%dP%dN" % (rng.choice((3, 40, 400)), rng.choice((3, 40, 400)), rng.choice((3, 40)))
    n, s = rng.randint(10, 90), ""
    while n > 0:
        m = min(n, rng.choice((1, 1, 1, 2, 3, 7, 20)))
        s += "%d%s" % (m, rng.choice("NP"))
        n -= m
    return s


def run(ctx):
    q = ctx.quick
    progs = plans.make(ctx, PLAN, 1 if q else 6, 1 if q else 3, walk=0.015, walkfn=turns,
                       weights=dict(i=50, u=12, d=33, l=5))
    run_programs(ctx, progs, ("scan", "move"))
