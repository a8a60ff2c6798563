"""Which sequential programs a check runs."""
from . import gen
from .kv import Prog


def make(ctx, plan, reps, scale=1, **kw):
    """plan: list of (config, flavour, nkeys, nops[, overrides of generator args])."""
    out = []
    for r in range(reps):
        for n, ent in enumerate(plan):
            name, fl, nk, no = ent[:4]
            args = dict(kw)
            if len(ent) > 4:
                args.update(ent[4])
            rng = ctx.rng(name, n, r)
            lines = gen.kv_program(rng, name, nk, int(no * scale), **args)
            out.append(Prog("%s-%s%d-%d" % (ctx.pid.lower(), name, n, r), lines, nk, fl, conc=name == "bg"))
    return out
