"""Sequential programs against the KVStore specification."""
import os, re, json
from . import core, gen
from .core import Violation, InfraError, run_driver, pmap

ALL = ("write", "lookup", "scan", "move", "life")


def cfg_text(nkeys, judged, only_reopened=False):
    return """SPECIFICATION TSpec
INVARIANT CursorOnLive
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS NKeys = %d
 Judged = {%s}
 OnlyReopened = %s
""" % (nkeys, ", ".join('"%s"' % j for j in judged), "TRUE" if only_reopened else "FALSE")


class Prog:
    def __init__(self, name, lines, nkeys, flavour="rel", conc=False, timeout=60):
        self.name, self.lines, self.nkeys, self.flavour = name, lines, nkeys, flavour
        self.conc, self.timeout = conc, timeout
        self.trace = None


def kvdrv(ctx, flavour):
    return ctx.prog("kvdrv", flavour, cextra=["-DVF_TUNE"], fallback=[])


def drive(ctx, p, tag=""):
    """Runs one program; p.trace = path of its trace, with how it ended."""
    exe = kvdrv(ctx, p.flavour)
    base = os.path.join(ctx.work, p.name + tag)
    db = os.path.join(ctx.shm, p.name + tag + ".db")
    lines = [p.lines[0] + " filename=" + db] + p.lines[1:]
    with open(base + ".prog", "w") as f:
        f.write("\n".join(lines) + "\n")
    st, err = run_driver([exe, base + ".prog", base + ".ndjson"], p.timeout)
    try:
        os.unlink(db)
    except FileNotFoundError:
        pass
    if st and st[0] == "exit":
        raise InfraError("%s: driver exit %s: %s" % (p.name, st, err[-500:]))
    evs = [l for l in open(base + ".ndjson", errors="replace").read().split("\n") if l]
    if st:
        if evs and not evs[-1].endswith("]"):
            evs.pop()
        evs.append(json.dumps([st[0], st[1] if len(st) > 1 else 0]))
    p.err = err
    p.events = evs
    p.files = [base + ".prog", base + ".ndjson"]
    return p


def validate(ctx, progs, judged, only_reopened=False, timeout=500, count=True):
    """Returns None, or (program, index of the event in it, event)."""
    nk = max(p.nkeys for p in progs)
    path = os.path.join(ctx.work, "trace-%s.ndjson" % progs[0].name)
    pos = []
    n = 0
    with open(path, "w") as f:
        for p in progs:
            f.write('["reset"]\n')
            n += 1
            pos.append((n, p))
            for e in p.events:
                f.write(e + "\n")
            n += len(p.events)
    rc, out = ctx.tlc("KVTrace", cfg_text(nk, judged, only_reopened), env={"TRACE": path}, timeout=timeout)
    os.unlink(path)
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
    if rc == 0 and m and m.group(1) == m.group(2) == str(n):
        return None
    if not m:
        # an evaluation error inside the specification means a malformed trace
        m2 = re.search(r"The depth of the complete state graph search is (\d+)", out)
        raise InfraError("TLC failed rc=%s\n%s" % (rc, out[-3000:]))
    d = int(m.group(1))
    for start, p in reversed(pos):
        if d >= start or start == pos[0][0]:
            i = d - start
            return p, i, p.events[i] if 0 <= i < len(p.events) else "?"


def describe(p, i):
    lo = max(0, i - 4)
    return "program %s (%s build), event %d rejected by KVStore:\n  %s\n%s" % (
        p.name, p.flavour, i, "\n  ".join(p.events[lo:i] + ["-> " + (p.events[i] if i < len(p.events) else "?")]),
        ("stderr: " + p.err.strip()[-600:]) if p.err.strip() else "")


def run_programs(ctx, progs, judged, only_reopened=False, jvms=5, drivers=6):
    for fl in sorted(set(p.flavour for p in progs)):
        kvdrv(ctx, fl)
    pmap(lambda p: drive(ctx, p), progs, drivers)
    # balance the traces over the JVMs
    groups = [[] for _ in range(min(jvms, len(progs)))]
    load = [0] * len(groups)
    for p in sorted(progs, key=lambda p: -len(p.events) * (50 + p.nkeys)):
        g = load.index(min(load))
        groups[g].append(p)
        load[g] += len(p.events) * (50 + p.nkeys)
    bad = [b for b in pmap(lambda g: validate(ctx, g, judged, only_reopened), groups, jvms) if b]
    for p, i, e in bad:
        what = describe(p, i)
        files = p.files
        ended = p.events[-1].startswith(('["died"', '["hung"')) and i >= len(p.events) - 1
        # report only what a second look confirms: the same program again for a
        # deterministic run or an abnormal end, the same trace again otherwise
        if p.conc and not ended:
            again = validate(ctx, [p], judged, only_reopened, count=False)
            if again:
                raise Violation(what, files)
            raise InfraError("rejection not repeated: " + what)
        for k in range(3):
            q = Prog(p.name, p.lines, p.nkeys, p.flavour, p.conc, p.timeout)
            drive(ctx, q, "-again%d" % k)
            again = validate(ctx, [q], judged, only_reopened, count=False)
            if again:
                raise Violation(what + "\nagain: " + describe(*again[:2]), files + q.files)
        print("NOTE: an unrepeated rejection was dropped: " + what)
    ctx.traces += len(progs)
    for p in progs[:3]:
        ctx.sample({"program": p.name, "build": p.flavour, "config": p.lines[0], "events": len(p.events),
                    "head": p.events[1:6], "tail": p.events[-3:]})
    ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + sum(len(p.events) for p in progs)
    return progs
