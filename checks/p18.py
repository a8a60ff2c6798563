"""P18: tasks run once; idle means idle."""
from vlib import tasks

MODEL = """SPECIFICATION Spec
CONSTANTS Workers = {w1%s} Enqueuers = {e1, e2} Helpers = {h1} PerEnq = %d
INVARIANTS AtMostOnce Counted
PROPERTIES Sound AllRun AllEnd
CHECK_DEADLOCK TRUE
"""


def run(ctx):
    q = ctx.quick
    ctx.model("TaskQueue", MODEL % (("", 2) if q else (", w2", 2)), timeout=2400)
    tasks.task_runs(ctx, 36 if q else 500)
