"""Seeded generators of operation programs for the sequential driver."""
import random

MAXV = 1400          # keep every merged value below the inline limit


def lex(b): return b
def order_keys(keys, cmp):
    if cmp in (0, 3):
        return sorted(keys)
    if cmp == 1:
        return sorted(keys, reverse=True)
    if cmp == 2:
        return sorted(keys, key=lambda b: (len(b), b[::-1]))
    raise ValueError(cmp)


def _add(d, k):
    d[k] = 1


def make_keys(rng, n, kind, maxlen):
    ks = {}              # insertion-ordered, so that a seed reproduces
    if kind == "be8":
        base = rng.randrange(1 << 40)
        while len(ks) < n:
            _add(ks, (base + rng.randrange(n * 4)).to_bytes(8, "big"))
    elif kind == "fixed":
        ln = maxlen
        while len(ks) < n:
            _add(ks, bytes(rng.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(3))
                   + rng.randbytes(ln - 3))
    elif kind == "var":          # variable length, many shared prefixes
        alpha = [b"\x00", b"\x01", b"a", b"b", b"\x7f", b"\x80", b"\xff"]
        while len(ks) < n:
            ln = rng.randint(1, maxlen)
            if ks and rng.random() < 0.6:
                p = rng.choice(list(ks)[:50])
                s = p[:rng.randint(0, len(p))]
            else:
                s = b""
            while len(s) < ln and rng.random() < 0.9:
                s += rng.choice(alpha)
            if 1 <= len(s) <= maxlen:
                _add(ks, s)
    elif kind == "short":        # 1..3 bytes
        while len(ks) < n:
            _add(ks, rng.randbytes(rng.randint(1, 3)))
    elif kind == "text":
        i = 0
        while len(ks) < n:
            _add(ks, ("user%0*d" % (rng.choice((4, 8, 12)), rng.randrange(n * 8))).encode()[:maxlen])
    else:
        raise ValueError(kind)
    return list(ks)


CONFIGS = {
    # name: (config overrides, key kind, max key, value sizes)
    "mem":    (dict(memtable_capacity=24 << 20), "be8", 8, (0, 6, 40)),
    "small":  (dict(memtable_capacity=640 << 10), "be8", 8, (300, 1400)),
    "fan4":   (dict(memtable_capacity=640 << 10, fanout=4, max_branches_per_node=12), "var", 24, (200, 1400)),
    "wide":   (dict(memtable_capacity=768 << 10, fanout=6, max_branches_per_node=12), "fixed", 100, (0, 700, 1400)),
    "bg":     (dict(memtable_capacity=640 << 10, fanout=4, num_memtable_bg_threads=1, num_normal_bg_threads=2), "be8", 8, (400, 1400)),
    "tinycache": (dict(memtable_capacity=640 << 10, fanout=6, cache_size=6 << 20), "text", 20, (500, 1400)),
    "log":    (dict(memtable_capacity=640 << 10, use_log=1), "be8", 8, (300, 1400)),
    "rev":    (dict(memtable_capacity=640 << 10, fanout=4, cmp=1), "var", 24, (300, 1400)),
    "le":     (dict(memtable_capacity=640 << 10, fanout=4, cmp=2, hash=2), "fixed", 12, (300, 1400)),
    "weakhash": (dict(memtable_capacity=640 << 10, hash=1, fanout=6), "be8", 8, (300, 1400)),
    "reclaim": (dict(memtable_capacity=640 << 10, fanout=4, reclaim_threshold=1 << 20), "be8", 8, (400, 1400)),
    "shmem":  (dict(memtable_capacity=640 << 10, use_shmem=1, shmem_size=1 << 30), "be8", 8, (300, 1400)),
    "fgq":    (dict(memtable_capacity=640 << 10, fanout=4, queue_scale_percent=100), "be8", 8, (300, 1400)),
    "filt":   (dict(memtable_capacity=640 << 10, fanout=8, filter_index_size=256, filter_remainder_size=8), "var", 30, (300, 1400)),
    "deep":   (dict(memtable_capacity=1 << 20, fanout=4, tune=(64 << 10, 32 << 10, 8), rotate=0.03), "be8", 8, (100, 600)),
    "deepvar": (dict(memtable_capacity=1 << 20, fanout=3, tune=(48 << 10, 24 << 10, 6), rotate=0.03), "var", 40, (100, 900)),
    "deepbr": (dict(memtable_capacity=1 << 20, fanout=6, tune=(1 << 20, 48 << 10, 4), rotate=0.08), "short", 3, (20, 300)),
    "wrap":   (dict(memtable_capacity=640 << 10, fanout=4, disk_size=700 << 20, advance=0.006), "be8", 8, (300, 1400)),
    "oddsize": (dict(memtable_capacity=640 << 10, fanout=6, disk_size=(300 << 20) + (128 << 10), cache_size=(7 << 20) + (256 << 10)), "var", 24, (200, 1400)),
    "stats":  (dict(memtable_capacity=640 << 10, use_stats=1), "short", 3, (300, 1400)),
}


def cfg_line(over, max_key):
    c = dict(cache_size=64 << 20, disk_size=2 << 30, memtable_capacity=640 << 10, merge=1)
    c.update(over)
    c["max_key"] = max_key
    return "C " + " ".join("%s=%d" % kv for kv in c.items())


def kv_program(rng, cfgname, nkeys=300, nops=4000, weights=None,
               reopen=0.0005, walk=0.002, walklen=(5, 60), hot=None, sweep=0,
               rotate=0.0, tune=None, over=None, walkfn=None, reopen_read=False):
    walkfn = walkfn or walk_moves
    more = over or {}
    over, kind, mk, vs = CONFIGS[cfgname]
    over = dict(over)
    tune = tune or over.pop("tune", None)
    rotate = rotate or over.pop("rotate", 0.0)
    over.pop("tune", None)
    over.pop("rotate", None)
    advance = over.pop("advance", 0)
    over.update(more)
    keys = order_keys(make_keys(rng, nkeys, kind, mk), over.get("cmp", 0))
    lines = [cfg_line(over, mk), "K %d" % nkeys] + [k.hex() for k in keys]
    if tune:
        lines.append("T %d %d %d" % tune)
    lines.append("create")
    w = weights or dict(i=45, u=15, d=12, l=26)
    ops = list(w); ws = [w[o] for o in ops]
    size = {}
    vid = 0

    def vlen():
        lo, hi = vs[0], vs[-1]
        if len(vs) == 3 and rng.random() < 0.3:
            return rng.choice(vs)
        n = rng.randint(lo, hi)
        return n if n >= 6 else rng.choice((0, 6))

    def pick():
        if hot and rng.random() < 0.5:
            return rng.choice(hot)
        return rng.randint(1, nkeys)

    for n in range(nops):
        r = rng.random()
        if r < reopen:
            lines += ["close", "open"]
            if advance:
                lines.append("H %d" % (5500 - rng.randint(0, 500)))
            if reopen_read:
                lines += ["A 1 %d %d" % (nkeys, rng.choice((1, 3, 7)))]
                lines += ["W 0 %dN" % (nkeys + 5)] if rng.random() < 0.4 else []
        elif r < reopen + walk:
            lines.append("W %d %s" % (rng.choice((0, pick(), pick())), walkfn(rng, walklen)))
        if advance and rng.random() < advance:
            # the allocation position moves around the end of the disk
            lines.append("H %d" % rng.choice((50, 300, 1200, 5500)))
        if rotate and rng.random() < rotate:
            lines.append(rng.choice(("M", "M", "M1")))
        o = rng.choices(ops, ws)[0]
        k = pick()
        if o == "i":
            vid += 1; L = vlen(); size[k] = L
            lines.append("i %d %d %d" % (k, vid, L))
        elif o == "u":
            room = MAXV - size.get(k, 0)
            if room < 40:
                o = "d"
            else:
                vid += 1; L = rng.randint(6, min(room, 60)); size[k] = size.get(k, 0) + L
                lines.append("u %d %d %d" % (k, vid, L))
        if o == "d":
            size[k] = 0
            lines.append("d %d" % k)
        elif o == "l":
            lines.append("l %d %d" % (k, rng.choice((0, 0, 1, 2))))
        if sweep and n % sweep == sweep - 1:
            lines.append("A 1 %d" % nkeys)
    lines.append("A 1 %d" % nkeys)
    lines.append("W 0 %dN" % (nkeys + 5))
    lines.append("W %d %dP" % (nkeys, nkeys + 5))
    lines += ["close", "open", "A 1 %d" % nkeys, "W 0 %dN" % (nkeys + 5), "close"]
    return lines


def walk_moves(rng, walklen):
    style = rng.random()
    n = rng.randint(*walklen)
    if style < 0.35:
        return "%dN" % n
    if style < 0.55:
        return "%dP" % n
    s = ""
    while n > 0:
        c = rng.choice("NP")
        m = min(n, rng.choice((1, 1, 2, 3, 7, 20)))
        s += "%d%s" % (m, c)
        n -= m
    return s
