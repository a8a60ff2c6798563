"""P19: identities of threads."""
from vlib import tasks


def run(ctx):
    tasks.id_runs(ctx, 48 if ctx.quick else 400)
