"""Concurrent histories: recording, projection to keys, validation (LinKey)."""
import os, json
from . import gen
from .core import Violation, InfraError, run_driver, pmap
from .tracecheck import check_trace

CFG = "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


class Hist:
    def __init__(self, ctx, name, lines, flavour, timeout=120):
        self.ctx, self.name, self.lines, self.flavour, self.timeout = ctx, name, lines, flavour, timeout

    def go(self, tag=""):
        ctx = self.ctx
        exe = ctx.prog("concdrv", self.flavour, cextra=["-DVF_TUNE"], fallback=[])
        base = os.path.join(ctx.work, self.name + tag)
        db = os.path.join(ctx.shm, self.name + tag + ".db")
        with open(base + ".in", "w") as f:
            f.write("\n".join([self.lines[0] + " filename=" + db] + self.lines[1:]) + "\n")
        st, err = run_driver([exe, base + ".in", base + ".out"], self.timeout)
        try:
            os.unlink(db)
        except FileNotFoundError:
            pass
        self.st, self.err = st, err
        self.files = [base + ".in", base + ".out"]
        if st and st[0] == "exit":
            raise InfraError("%s: driver exit %s %s" % (self.name, st, err[-600:]))
        self.recs = []
        if not st:
            for l in open(base + ".out"):
                self.recs.append(json.loads(l))
            if self.recs[-1] != ["done"]:
                raise InfraError("incomplete record")
            self.recs.pop()
        return self


def per_key(h, points=True, scans=True):
    """Histories per key; also the defects a projection cannot express."""
    keys = {}
    bad = []
    n = 0
    for r in h.recs:
        n += 1
        if r[0] == "s":
            if not scans:
                continue
            _, tid, back, start, c, rc, items, ended, st, end = r
            if rc or st:
                bad.append("scan failed: rc=%d status=%d" % (rc, st))
                continue
            ks = [i[0] for i in items]
            if any(k < 1 for k in ks) or any((b >= a) if back else (b <= a) for a, b in zip(ks, ks[1:])):
                bad.append("scan out of order: start %d back %d keys %s" % (start, back, ks[:200]))
                continue
            # each covered key: read between c and the stamp at which it was passed
            nk = h.nkeys
            if back:
                # positioned at the first key >= start (or the last key): begins wherever
                # it first showed; keys above that were passed when positioning
                pos = ks[0] + 1 if ks else 0
                seq = range(ks[0], 0, -1) if ks else ()
                lo_seen = ks[-1] if ks else 0
                it = iter(items)
                cur = next(it, None)
                for k in seq:
                    if cur is not None and cur[0] == k:
                        keys.setdefault(k, []).append((c, cur[1], "l", 0, cur[2]))
                        cur = next(it, None)
                    elif cur is not None:
                        keys.setdefault(k, []).append((c, cur[1], "l", 0, [0]))
                    elif ended:
                        keys.setdefault(k, []).append((c, end, "l", 0, [0]))
                    else:
                        break
            else:
                it = iter(items)
                cur = next(it, None)
                for k in range(start or 1, nk + 1):
                    if cur is not None and cur[0] == k:
                        keys.setdefault(k, []).append((c, cur[1], "l", 0, cur[2]))
                        cur = next(it, None)
                    elif cur is not None:
                        keys.setdefault(k, []).append((c, cur[1], "l", 0, [0]))
                    elif ended:
                        keys.setdefault(k, []).append((c, end, "l", 0, [0]))
                    else:
                        break
                if ks and ks[0] < (start or 1):
                    bad.append("scan from %d shows %d" % (start, ks[0]))
            continue
        kind, tid, k, wid, c, rt, rc, found, ids = r
        if rc:
            bad.append("operation %s on key %d failed: %d" % (kind, k, rc))
            continue
        if kind == "l":
            if points:
                keys.setdefault(k, []).append((c, rt, "l", 0, ids if found else [0]))
        else:
            keys.setdefault(k, []).append((c, rt, kind, wid, []))
    return keys, bad


def key_events(k, ops):
    evs = [(c, ["c", n, kind, wid, res]) for n, (c, r, kind, wid, res) in enumerate(ops)]
    evs += [(r, ["r", n]) for n, (c, r, kind, wid, res) in enumerate(ops)]
    evs.sort(key=lambda e: (e[0], e[1][0] == "r"))
    return [["key", k]] + [e[1] for e in evs]


def run_histories(ctx, hists, points=True, scans=True, jvms=5, drivers=2, progress_only=False):
    for fl in sorted(set(h.flavour for h in hists)):
        ctx.prog("concdrv", fl, cextra=["-DVF_TUNE"], fallback=[])
    pmap(lambda h: h.go(), hists, drivers)
    for h in hists:
        if h.st:
            what = "%s: the process ended with %s\n%s" % (h.name, h.st, h.err[-1500:])
            if h.st[0] == "hung":  # twice, with a much longer limit
                raise Violation(what, h.files)
            for k in range(8):
                g = Hist(ctx, h.name, h.lines, h.flavour, h.timeout)
                g.go("-again%d" % k)
                if g.st:
                    raise Violation(what + "\nagain: %s %s" % (g.st, g.err[-600:]), g.files)
            print("NOTE: an unrepeated end was dropped: " + what)
            h.recs = []
    nev = 0
    ops = 0
    units = []
    for h in hists:
        h.nkeys = int(h.lines[1].split()[1])
        keys, bad = per_key(h, points, scans)
        if bad and not progress_only:
            raise Violation("%s: %s" % (h.name, "; ".join(bad[:5])), h.files)
        ops += len(h.recs)
        for k in sorted(keys):
            units.append((h, k, key_events(k, keys[k])))
    ctx.extra["operations_recorded"] = ctx.extra.get("operations_recorded", 0) + ops
    if progress_only:
        ctx.traces += len(hists)
        return
    groups = [[] for _ in range(jvms)]
    load = [0] * jvms
    for u in sorted(units, key=lambda u: -len(u[2])):
        g = load.index(min(load))
        groups[g].append(u)
        load[g] += len(u[2])

    def one(gi, count=True):
        g = groups[gi] if isinstance(gi, int) else gi
        path = os.path.join(ctx.work, "lin-%s.ndjson" % (gi if isinstance(gi, int) else "again"))
        n = 0
        starts = []
        with open(path, "w") as f:
            for h, k, evs in g:
                starts.append((n, h, k, evs))
                for e in evs:
                    f.write(json.dumps(e) + "\n")
                n += len(evs)
        if n == 0:
            return None
        d = check_trace(ctx, "LinKey", CFG, path, n, count=count, heap="3g")
        if d is None:
            return None
        for s, h, k, evs in reversed(starts):
            if d >= s:
                return h, k, evs, d - s

    for b in pmap(one, list(range(jvms)), jvms):
        if not b:
            continue
        h, k, evs, i = b
        what = "%s: key %d not linearizable; first event without explanation is %d of %d:\n  %s\n" % (
            h.name, k, i, len(evs), "\n  ".join(json.dumps(e) for e in evs[max(0, i - 15):i + 1]))
        if one([(h, k, evs)], False):
            p = os.path.join(ctx.work, "key.ndjson")
            with open(p, "w") as f:
                f.write("\n".join(json.dumps(e) for e in evs) + "\n")
            raise Violation(what, h.files + [p])
        raise InfraError("rejection not repeated: " + what)
    ctx.traces += len(hists)
    ctx.extra["keys_checked"] = ctx.extra.get("keys_checked", 0) + len(units)
    for h in hists[:3]:
        ctx.sample({"history": h.name, "build": h.flavour, "config": h.lines[0], "run": h.lines[-1],
                    "ops": len(h.recs), "first": h.recs[:3]})


def history_lines(rng, over, nkeys=200, threads=3, scanners=1, nops=400, scans=6, rounds=2, perturb=1, nhot=10,
                  kind="be8", mk=8, tune=None, vals=(10, 60, 300, 1200), pattern=0):
    keys = gen.order_keys(gen.make_keys(rng, nkeys, kind, mk), over.get("cmp", 0))
    c = dict(memtable_capacity=640 << 10, fanout=4, max_branches_per_node=12)
    c.update(over)
    lines = [gen.cfg_line(c, mk), "K %d" % nkeys] + [k.hex() for k in keys]
    if tune:
        lines.append("T " + " ".join(map(str, tune)))
    lines.append("V %d %d %d %d" % vals)
    lines.append("R %d %d %d %d %d %d %d %d %d" % (rng.getrandbits(30) + 1, threads, scanners, nops, scans, rounds,
                                                perturb, nhot, pattern))
    return lines
