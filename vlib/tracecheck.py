"""Generic: run a driver on an input, validate its trace with a trace spec."""
import os, re, json
from .core import Violation, InfraError, run_driver, pmap


class Run:
    """One execution of a driver; its events end with how it ended."""

    def __init__(self, ctx, name, cmd, trace, timeout=60, env=None, conc=False, files=(), before=None, after=None):
        self.ctx, self.name, self.cmd, self.trace = ctx, name, cmd, trace
        self.timeout, self.env, self.conc, self.files = timeout, env, conc, list(files)
        self.before, self.after = before, after
        self.hung = self.skipped = False

    def go(self):
        if self.before:
            self.before()
        if os.path.exists(self.trace):
            os.unlink(self.trace)
        st, err = run_driver(self.cmd, self.timeout, self.env)
        self.hung = bool(st) and st[0] == "hung"
        if self.after:
            self.after()
        if st and st[0] == "exit":
            raise InfraError("%s: driver exit %s: %s" % (self.name, st, err[-800:]))
        self.err = err
        t = open(self.trace, errors="replace").read() if os.path.exists(self.trace) else ""
        evs = [l for l in t.split("\n") if l]
        if st:
            if evs and not t.endswith("\n"):
                evs.pop()
            evs.append(json.dumps([st[0], st[1] if len(st) > 1 else 0]))
        self.ended = bool(st)
        self.events = evs
        with open(self.trace, "w") as f:
            f.write("".join(e + "\n" for e in evs))
        return self


def check_trace(ctx, module, cfg, path, n, timeout=600, env=None, count=True, jopts=(), heap="2g"):
    """None if accepted, else the number of matched events."""
    e = {"TRACE": path}
    e.update(env or {})
    rc, out = ctx.tlc(module, cfg, env=e, timeout=timeout, count=count, jopts=jopts, heap=heap)
    m = re.search(r'<<"MATCHED", (-?\d+), (\d+)>>', out)
    if rc == 0 and m and m.group(1) == m.group(2) == str(n):
        return None
    if not m:
        raise InfraError("TLC on %s: rc=%s\n%s" % (module, rc, out[-3000:]))
    return int(m.group(1))


def show(name, events, i, err=""):
    lo = max(0, i - 6)
    return "%s: event %d of %d rejected:\n  %s\n%s" % (
        name, i, len(events), "\n  ".join([e[:600] for e in events[lo:i]] +
                                          ["-> " + (events[i][:600] if i < len(events) else "(end of trace)")]),
        ("stderr: " + err.strip()[-600:]) if err.strip() else "")


def validate_runs(ctx, runs, module, cfg, jvms=5, drivers=6, timeout=600, reset='["reset"]', jopts=(),
                  group=True, heap="2g"):
    """Runs all drivers, concatenates their traces into up to `jvms` files
    (separated by `reset`), validates, confirms and reports."""
    def first(r):
        # one that does not end is enough: the others are not waited for
        if any(x.hung for x in runs):
            r.skipped = True
        else:
            r.go()
    pmap(first, runs, drivers)
    runs = [r for r in runs if not r.skipped]
    groups = [[] for _ in range(min(jvms, len(runs)))] if group else [[] for _ in runs]
    load = [0] * len(groups)
    for r in sorted(runs, key=lambda r: -len(r.events)):
        g = load.index(min(load))
        groups[g].append(r)
        load[g] += len(r.events) + 1

    def one(g, count=True):
        path = os.path.join(ctx.work, "grp-%s.ndjson" % g[0].name)
        n, pos = 0, []
        with open(path, "w") as f:
            for r in g:
                if reset:
                    f.write(reset + "\n")
                    n += 1
                pos.append((n, r))
                for e in r.events:
                    f.write(e + "\n")
                n += len(r.events)
        d = check_trace(ctx, module, cfg, path, n, timeout, count=count, jopts=jopts, heap=heap)
        os.unlink(path)
        if d is None:
            return None
        for start, r in reversed(pos):
            if d >= start or start == pos[0][0]:
                return r, max(0, d - start)

    bad = [b for b in pmap(one, groups, jvms) if b]
    for r, i in bad:
        what = show(r.name, r.events, i, r.err)
        files = [r.trace] + r.files
        if r.hung:
            raise Violation(what, files)
        if r.conc and not (r.ended and i >= len(r.events) - 1):
            if one([r], False):
                raise Violation(what, files)
            raise InfraError("rejection not repeated: " + what)
        for k in range(12 if r.conc else 3):
            r.go()
            b = one([r], False)
            if b:
                raise Violation(what + "\nagain: " + show(r.name, r.events, b[1], r.err), files)
        print("NOTE: an unrepeated rejection was dropped: " + what)
    ctx.traces += len(runs)
    ctx.extra["events_validated"] = ctx.extra.get("events_validated", 0) + sum(len(r.events) for r in runs)
    for r in runs[:3]:
        ctx.sample({"run": r.name, "cmd": " ".join(os.path.basename(c) for c in r.cmd), "events": len(r.events),
                    "head": [e[:300] for e in r.events[:4]], "tail": [e[:300] for e in r.events[-2:]]})
    return runs
