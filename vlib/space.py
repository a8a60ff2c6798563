"""Programs and drivers run with every allocator request recorded; checked
against Space.tla."""
import os
from . import plans
from .tracecheck import Run, validate_runs

WRAPS = ["-Wl," + ",".join("--wrap=" + w for w in (
    "rc_allocator_init", "rc_allocator_mount", "rc_allocator_unmount", "clockcache_init", "trunk_unmount", "_exit"))]


def cfg(judged):
    return ("SPECIFICATION TSpec\nPOSTCONDITION Accepted\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANT Judged = {%s}\n"
            % ", ".join('"%s"' % j for j in judged))


def kvspace(ctx, flavour):
    return ctx.prog("kvspace", flavour, srcs=["kvdrv.c", "vf_alloc.c"], cextra=["-DVF_TUNE", "-DVF_ALLOC"],
                    ldextra=WRAPS)


def kv_runs(ctx, progs, destroy=True):
    runs = []
    for fl in sorted(set(p.flavour for p in progs)):
        kvspace(ctx, fl)
    for p in progs:
        base = os.path.join(ctx.work, p.name)
        db = os.path.join(ctx.shm, p.name + ".db")
        lines = [p.lines[0] + " filename=" + db] + p.lines[1:]
        if destroy:
            assert lines[-1] == "close"
            lines[-1:] = ["D", "close"]
        with open(base + ".prog", "w") as f:
            f.write("\n".join(lines) + "\n")

        def clean(db=db, t=base + ".alloc"):
            for x in (db,):
                if os.path.exists(x):
                    os.unlink(x)
        runs.append(Run(ctx, p.name, [kvspace(ctx, p.flavour), base + ".prog", base + ".ndjson"], base + ".alloc",
                        timeout=60, env={"VF_ALLOC_OUT": base + ".alloc"}, conc=p.conc, files=[base + ".prog"],
                        before=clean, after=clean))
    return runs


MINI = ("SPECIFICATION MSpec\nPOSTCONDITION Accepted\nVIEW View\nCHECK_DEADLOCK FALSE\n"
        "CONSTANT Judged = {\"use\", \"back\"}\n")
ALLOC = "SPECIFICATION TSpec\nINVARIANT Track\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def mini_runs(ctx, n, nops):
    rng = ctx.rng("mini")
    runs = []
    exes = {fl: ctx.prog("minidrv", fl, srcs=["minidrv.c", "vf_alloc.c"], ldextra=WRAPS) for fl in ("rel", "dbg", "ctl")}
    for i in range(n):
        fl = ("ctl", "rel", "dbg")[i % 3]
        runs.append(_run(ctx, "mini%d-%s" % (i, fl), exes[fl],
                         [rng.getrandbits(30), nops, rng.choice((8, 60, 300)), rng.choice((12, 200, 1200)),
                          rng.choice((20, 100, 1000))]))
    return runs


def alloc_runs(ctx, n, nops):
    rng = ctx.rng("alloc")
    runs = []
    exes = {fl: ctx.prog("allocdrv", fl) for fl in ("rel", "dbg", "ctl")}
    for i in range(n):
        fl = ("ctl", "rel", "dbg")[i % 3]
        thr = rng.choice((1, 2, 3, 4))
        runs.append(_run(ctx, "alloc%d-%s" % (i, fl), exes[fl],
                         [rng.getrandbits(30), thr, nops // thr, rng.choice((4, 8)), rng.choice((3, 4, 7, 20, 60)),
                          rng.choice((10, 40, 200, 2000))]))
    return runs


def _run(ctx, name, exe, args):
    dev = "%s/%s.db" % (ctx.shm, name)
    t = "%s/%s.ndjson" % (ctx.work, name)

    def clean():
        if os.path.exists(dev):
            os.unlink(dev)
    return Run(ctx, name, [exe, dev] + [str(a) for a in args] + [t], t, conc=True, before=clean, after=clean,
               timeout=90)
