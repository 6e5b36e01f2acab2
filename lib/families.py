"""Families of cases.  Every function takes a random generator and yields Cases."""
from plans import *

M32 = (1 << 32) - 1

INTERESTING = {
    "INT32": [0, 1, M32, 0x7fffffff, 0x80000000, 0x80000001, 0x7ffffffe, 63, 64, 8191, 8192, 0xffffffc0, 0xffffffbf,
              1048575, 1048576, 134217727, 134217728, 0x55555555, 0xaaaaaaaa],
    "INT64": [0, 1, MASK64, I64MAX, 1 << 63, (1 << 63) + 1, I64MAX - 1, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 53,
              (1 << 53) + 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 255, 256, 65535, 65536],
    "FLOAT": [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001,
              0x7fc12345, 1, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x00800000, 0x33800000, 0x4b800000],
}
SPECIAL_FLOATS = {0x7fc00000, 0xffc00000, 0x7f800001, 0x7fc12345}


def val(rng, ty, style=None):
    style = style or rng.choice(["mix", "mix", "small", "any"])
    bits = 64 if ty in ("INT64", "DOUBLE") else 32
    if style == "mix" and ty in INTERESTING:
        return rng.choice(INTERESTING[ty])
    if style == "any":
        return rng.getrandbits(bits)
    if ty == "FLOAT":
        return fbits(rng.randrange(-1000, 1000) / 8)
    if ty == "DOUBLE":
        return struct.unpack(">Q", struct.pack(">d", rng.randrange(-1000, 1000) / 8))[0]
    return rng.randrange(-100, 100) & ((1 << bits) - 1)


def values(rng, ty, n, style):
    """A sequence with a certain structure of differences."""
    bits = 64 if ty == "INT64" else 32
    mask = (1 << bits) - 1
    if style.startswith("width"):
        # differences that need exactly w bits above the smallest
        w = min(int(style[5:]), bits)
        base = rng.getrandbits(bits)
        lo = rng.choice([0, 1, rng.getrandbits(bits), mask])
        v, out = base, []
        for i in range(n):
            out.append(v)
            d = 0 if w == 0 else (rng.getrandbits(w) if i % 5 else (1 << w) - 1)
            if i % 7 == 1:
                d = 0
            v = (v + lo + d) & mask
        return out
    if style == "const":
        v = val(rng, ty)
        return [v] * n
    if style == "step":
        v, s = val(rng, ty, "small"), rng.randrange(-3, 4)
        if ty == "FLOAT":
            return [fbits(i * s / 4) for i in range(n)]
        return [(v + i * s) & mask for i in range(n)]
    if style == "swing":
        a = INTERESTING[ty]
        return [a[(i * 7 + i // 3) % len(a)] for i in range(n)]
    if style == "finite":
        if ty == "FLOAT":
            return [rng.choice([x for x in INTERESTING["FLOAT"] if x not in SPECIAL_FLOATS]) for _ in range(n)]
        return [rng.getrandbits(bits) for _ in range(n)]
    return [val(rng, ty, style) for _ in range(n)]


def times(rng, n, style):
    """n strictly increasing timestamps."""
    if style == "step":
        t0, s = rng.choice([0, 1, 1650000000000]), rng.choice([1, 1, 1000, 7])
        return [t0 + i * s for i in range(n)]
    if style == "jitter":
        t, out = rng.randrange(0, 2000), []
        for _ in range(n):
            out.append(t)
            t += rng.choice([1, 1, 2, 3, 1000, 1 + rng.getrandbits(rng.randrange(1, 40))])
        return out
    if style == "end":       # up to the largest one
        return [I64MAX - 3 * (n - 1 - i) for i in range(n)]
    if style == "wide":      # from 0 to the largest
        s = sorted(rng.sample(range(1, I64MAX, 1 << 40), max(0, n - 2))) if n > 2 else []
        return ([0] + s + [I64MAX])[:n] if n != 1 else [rng.choice([0, I64MAX])]
    if style.startswith("width"):
        w = int(style[5:])
        t, out, lo = 0, [], rng.choice([1, 2, 100])
        for i in range(n):
            out.append(t)
            t += lo + (0 if w == 0 else (rng.getrandbits(w) if i % 4 else (1 << w) - 1))
        if out[-1] > I64MAX:
            return times(rng, n, "jitter")
        return out
    raise ValueError(style)


# ---------------------------------------------------------------------------

def encodings(rng, tier, prefix="enc", lens=None, mixed=True):
    """Every type, encoding and compression with sequences of every kind and length."""
    own = lens or ([1, 2, 3, 9, 128, 129, 130, 257] if tier == "quick" else
                   [1, 2, 3, 4, 5, 8, 9, 17, 63, 64, 127, 128, 129, 130, 131, 255, 256, 257, 258, 385, 513])
    k = 0
    for ty, enc, comp in COMBOS:
        styles = ["const", "step", "swing", "any", "mix", "finite"]
        if enc == "TS2DIFF":
            bits = 64 if ty == "INT64" else 32
            if tier == "quick" and (comp != "UNCOMPRESSED" or lens):
                styles += ["width%d" % w for w in ([0, 1, 7, 8, 9, 31, 32] + ([33, 56, 63, 64] if bits == 64 else []))]
            else:
                styles += ["width%d" % w for w in range(bits + 1)]
        for style in styles:
            n = own[k % len(own)]
            tstyle = ["step", "jitter", "end", "wide", "width%d" % (k % 56)][k % 5]
            k += 1
            c = Case("%s-%s-%s-%s-%s-%d" % (prefix, ty, enc, comp[0], style, n))
            c.group("d", [("s", ty, enc, comp)])
            if k % 3 == 0 and n > 3:
                c.limits = {"max_points_in_page": max(1, n // 3)}
            for t, v in zip(times(rng, n, tstyle), values(rng, ty, n, style)):
                c.w("d", "s", t, ty, v)
            c.close()
            c.drop()
            yield c


def widths(rng, tier):
    """Timestamps and values whose differences need every number of bits, and are as large as they can be."""
    for w in range(0, 63):
        for n in [3, 10, 131] if tier == "quick" else [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 128, 129, 130, 131, 257, 258]:
            if n > 2 and (n - 1) * (1 + (1 << w)) > I64MAX:
                n = max(2, min(n, I64MAX // (1 + (1 << w))))
            ty, enc = [("INT32", "PLAIN"), ("FLOAT", "PLAIN"), ("INT64", "TS2DIFF"), ("INT32", "TS2DIFF")][(w + n) % 4]
            c = Case("tw-%d-%d-%s-%s" % (w, n, ty, enc))
            c.group("d", [("s", ty, enc, rng.choice(["SNAPPY", "UNCOMPRESSED"]))])
            lo = rng.choice([1, 2, 1 + rng.getrandbits(w)]) if w < 55 else 1
            ds = [lo + ((1 << w) - 1 if k % 3 == 1 else rng.getrandbits(w) if w and k % 3 else 0) for k in range(n - 1)]
            t = rng.choice([0, I64MAX - sum(ds)]) if sum(ds) <= I64MAX else None
            if t is None:
                continue
            for v, d in zip(values(rng, ty, n, "any"), ds + [0]):
                c.w("d", "s", t, ty, v)
                t += d
            c.close()
            c.drop()
            yield c


def lengths(rng, tier):
    """Every length across block and varint boundaries."""
    ls = list(range(1, 6)) + [127, 128, 129, 130, 131, 255, 256, 257, 258] if tier == "quick" else list(range(1, 20)) + list(range(120, 135)) + list(range(250, 262)) + [383, 384, 385, 386, 387, 512, 513, 514, 641]
    for n in ls:
        ty, enc, comp = COMBOS[n % len(COMBOS)]
        c = Case("len-%d-%s-%s-%s" % (n, ty, enc, comp[0]))
        c.group("d", [("s", ty, enc, comp)])
        for t, v in zip(times(rng, n, rng.choice(["step", "jitter"])), values(rng, ty, n, "finite")):
            c.w("d", "s", t, ty, v)
        c.close()
        yield c


NAMES = ["a", "b", "root.sg.d1", "s1", "d", "d.s", "s", "x_y", "Z", "0", "a.b", "a.b.c", "b.c", "temperature", "st\u00e4rke", "A"]


def random_schema(rng, c, ascii_only=False, max_devices=3, max_series=4, combos=COMBOS, late=True):
    ns = [n for n in NAMES if not ascii_only or n.isascii()]
    devs = rng.sample(ns, rng.randrange(1, max_devices + 1))
    for d in devs:
        ms = rng.sample(ns, rng.randrange(1, max_series + 1))
        group = [(m, *rng.choice(combos)) for m in ms]
        if late and rng.random() < 0.15:
            m = rng.choice(ms)       # declared twice, the last one counts
            group.append((m, *rng.choice(combos)))
        lms = [(rng.choice(ns), *rng.choice(combos))] if late and rng.random() < 0.15 else []
        c.group(d, group, lms)
    if late and rng.random() < 0.15:
        c.group(rng.choice(devs), [(rng.choice(ns), *rng.choice(combos))])
    if late and rng.random() < 0.2:
        c.late = len(c.groups)
        c.group(rng.choice(ns), [(rng.choice(ns), *rng.choice(combos))])
    return devs


def random_limits(rng, c):
    c.limits = {}
    r = rng.random()
    if r < 0.75:
        c.limits["max_points_in_page"] = rng.randrange(1, 9)
    elif r < 0.9:
        c.limits["first_page_check"] = rng.randrange(2, 8)
        c.limits["min_page_check"] = rng.randrange(2, 6)
        c.limits["page_size"] = rng.randrange(60, 400)
    if rng.random() < 0.8:
        c.limits["first_mem_check"] = rng.randrange(2, 12)
        c.limits["group_size"] = rng.choice([600, 700, 1000, 1500, 3000])


def random_history(rng, cid, steps=60, refusals=0.25, batches=0.25, after_close=0.5, limits=True, ascii_only=False,
                   late=True, combos=COMBOS, max_devices=3, max_series=4, close=0.95):
    c = Case(cid)
    random_schema(rng, c, ascii_only, max_devices, max_series, combos, late)
    if limits:
        random_limits(rng, c)
    series = sorted(c.decl)
    nm = lambda i: c.names[i - 1]
    n = rng.randrange(1, steps + 1)
    hot = rng.choice(series)
    for _ in range(n):
        d, m = hot if rng.random() < 0.4 else rng.choice(series)
        ty = c.decl[(d, m)][0]
        last = c.last.get((d, m), -1)
        gap = rng.choice([1, 1, 2, 5, 1000, rng.getrandbits(rng.randrange(1, 45)) + 1])
        t = min(last + gap, I64MAX)
        if rng.random() < refusals:
            kind = rng.randrange(6)
            if kind == 0:
                c.w(b"nodevice" if rng.random() < .5 else nm(m), nm(m), t, ty, val(rng, ty))
            elif kind == 1:
                c.w(nm(d), b"nomeasurement" if rng.random() < .5 else nm(d), t, ty, val(rng, ty))
            elif kind == 2:
                c.w(nm(d), nm(m), t, rng.choice([x for x in TYPES + ["DOUBLE"] if x != ty]), val(rng, "INT32"))
            elif kind == 3:
                c.w(nm(d), nm(m), last, ty, val(rng, ty))
            elif kind == 4:
                c.w(nm(d), nm(m), rng.choice([-1, -(1 << 63), last - 1, 0 if last >= 0 else -5, last // 2]), ty, val(rng, ty))
            else:
                c.w(nm(d), nm(m), max(0, last - rng.randrange(0, 5)), rng.choice(TYPES), val(rng, "INT32"))
            continue
        if rng.random() < batches:
            mine = [s for s in series if s[0] == d]
            pts, top = [], -1
            for s in rng.sample(mine, rng.randrange(1, len(mine) + 1)):
                pts.append((nm(s[1]), c.decl[s][0], val(rng, c.decl[s][0])))
                top = max(top, c.last.get(s, -1))
            bt = top + rng.choice([1, 1, 3])
            if rng.random() < refusals:
                k = rng.randrange(4)
                at = rng.randrange(0, len(pts) + 1)
                if k == 0:
                    pts.insert(at, (b"nomeasurement", "INT32", 5))
                elif k == 1:
                    x = rng.choice(pts)
                    pts.insert(at, x)                       # the same series twice
                elif k == 2:
                    x = rng.choice(pts)
                    pts.insert(at, (x[0], rng.choice([y for y in TYPES + ["DOUBLE"] if y != x[1]]), 7))
                else:
                    bt = max(0, top)                         # late for one of them at least
                c.b(nm(d), bt, pts)
            else:
                c.b(nm(d), bt, pts)
            continue
        c.w(nm(d), nm(m), t, ty, val(rng, ty))
    if rng.random() < close:
        c.close()
        if rng.random() < after_close:
            d, m = hot
            ty = c.decl[hot][0]
            for _ in range(rng.randrange(1, 4) if rng.random() < 0.97 else 300):
                k = rng.randrange(4)
                if k == 0:
                    c.close()
                elif k == 3:
                    c.op("w %d %d %x %s 1" % (d, m, rng.choice([c.last.get(hot, 0), 0, MASK64, I64MAX]), rng.choice(TYPES)))
                elif k == 1:
                    c.w(nm(d), nm(m), min(I64MAX, c.last.get(hot, -1) + 1), ty, val(rng, ty))
                else:
                    c.b(nm(d), min(I64MAX, c.last.get(hot, -1) + 2), [(nm(m), ty, val(rng, ty))])
    c.drop()
    return c


def histories(rng, n, prefix="h", **kw):
    for i in range(n):
        yield random_history(rng, "%s%d" % (prefix, i), **kw)


# ---------------------------------------------------------------------------
# The index and the bloom filter.

def fill(rng, c, every=1, points=1, order="seq"):
    """Some points for (every n-th of) the series declared."""
    keys = sorted(c.decl)
    if order == "shuffle":
        rng.shuffle(keys)
    for k, (d, m) in enumerate(keys):
        if k % every:
            continue
        ty = c.decl[(d, m)][0]
        for p in range(points):
            c.w(c.names[d - 1], c.names[m - 1], c.last.get((d, m), -1) + 1 + (k % 3), ty, val(rng, ty))


def index_case(rng, cid, devices, measurements, degree=256, every=1, flushes=1, digits=0, order="seq"):
    c = Case(cid)
    c.degree = degree
    f = ("%%0%dd" % digits) if digits else "%d"
    for d in range(devices):
        n = measurements(d) if callable(measurements) else measurements
        c.group("d" + f % d, [("s" + f % m, *COMBOS[(d + m) % len(COMBOS)]) for m in range(n)])
    if flushes > 1:
        c.limits = {"first_mem_check": max(2, devices * 2), "group_size": 2000}
    for _ in range(flushes):
        fill(rng, c, every, 1 if flushes == 1 else 2, order)
    c.close()
    c.drop()
    return c


def small_index(rng, tier):
    """All small numbers of devices and measurements for small degrees."""
    degrees = [2, 3] if tier == "quick" else [2, 3, 4, 5]
    for g in degrees:
        top = g * g + 2 if tier == "quick" else min(g * g * g + 2, 30)
        for n in range(1, top + 1):
            yield index_case(rng, "ix-d%d-g%d" % (n, g), n, 1, g)
            yield index_case(rng, "ix-m%d-g%d" % (n, g), 1, n, g)
        for n in range(2, top + 1, 3):
            yield index_case(rng, "ix-dm%d-g%d" % (n, g), n, lambda d: 1 + (d * 5) % (g + 2), g, every=1 + n % 2,
                             flushes=1 + n % 3, order="shuffle")
    yield index_case(rng, "ix-three", 3, lambda d: [1, 9, 4][d], 3)
    yield index_case(rng, "ix-empty", 2, 3, 3, every=1000)
    c = Case("ix-none")
    c.group("d", [("s", "INT32", "PLAIN", "SNAPPY")])
    c.close()
    c.close()
    c.drop()
    yield c
    c = Case("ix-noschema")
    c.close()
    c.drop()
    yield c


def big_index(rng, tier):
    """Around the real limit of 256 entries per node."""
    ns = [255, 256, 257, 300] if tier == "quick" else [255, 256, 257, 258, 300, 511, 512, 513, 600]
    for n in ns:
        yield index_case(rng, "big-d%d" % n, n, 1)
        yield index_case(rng, "big-m%d" % n, 1, n)
    yield index_case(rng, "big-m257f", 2, lambda d: [257, 3][d], flushes=2)
    yield index_case(rng, "big-both", 258, lambda d: 1 if d != 100 else 258)
    if tier != "quick":
        yield index_case(rng, "big-1100", 1100, 1)
        yield index_case(rng, "big-m1100", 1, 1100)


def device_names(rng, tier, wide=True):
    """Names that order, concatenate and encode in awkward ways."""
    sets = [["a", "a.b", "a.b.c", "a.", ".a", "a..b", "."], ["root.sg.d1", "root.sg.d10", "root.sg.d2", "root.sg.d1.x"],
            ["B", "a", "C", "b", "\u00e9", "e", "\u20ac", "z"], ["d", "d ", " d", "d\t", "D", "-", "_"],
            ["d" * k for k in (1, 2, 62, 63, 64, 65, 127, 128)], ["x" * k + "y" for k in range(0, 9)], ["", "a"]]
    for k, names in enumerate(sets):
        for g in (256, 3):
            c = Case("names-%d-%d" % (k, g))
            c.degree = g
            for d in names:
                c.group(d, [(m, *COMBOS[(len(d) + j) % len(COMBOS)]) for j, m in enumerate(names)])
            fill(rng, c, 1 if k % 2 else 2, order="shuffle")
            c.close()
            yield c
    for n in [8191, 8192, 8193] if tier != "quick" else [8192]:
        c = Case("names-long-%d" % n)
        c.group("d" * n, [("m" * n, "INT32", "PLAIN", "SNAPPY"), ("s", "FLOAT", "PLAIN", "UNCOMPRESSED")])
        fill(rng, c)
        c.close()
        yield c
    # more than 64 KiB of metadata
    for g, n, l in [] if not wide else [(256, 256, 300), (2, 2, 40000)] if tier == "quick" else [(256, 256, 300), (256, 300, 500), (2, 2, 40000), (3, 9, 12000)]:
        c = Case("names-wide-%d-%d" % (n, l))
        c.degree = g
        for k in range(n):
            c.group("d%03d" % k + "x" * l, [("s", *COMBOS[k % len(COMBOS)])])
        fill(rng, c)
        c.close()
        c.drop()
        yield c
    # two pairs that spell the same full path
    c = Case("names-dots")
    c.group("a.b", [("c", "INT32", "PLAIN", "SNAPPY")])
    c.group("a", [("b.c", "INT64", "PLAIN", "SNAPPY"), ("b", "FLOAT", "PLAIN", "SNAPPY")])
    fill(rng, c, points=3)
    c.close()
    yield c


def bloom(rng, tier):
    ns = list(range(1, 4)) + list(range(40, 62)) + [80, 100, 128, 400, 1000] if tier == "quick" else list(range(1, 130)) + [160, 200, 255, 256, 257, 300, 400, 512, 640, 1000]
    for n in ns:
        c = Case("bloom-%d" % n)
        ms = []
        while len(ms) < n:
            k = rng.choice([1, 2, 7, 8, 9, 13, 14, 15, 16, 17, 18, 24, 30, 31, 32, 33, 48])
            m = "".join(chr(rng.randrange(33, 127)) for _ in range(k)).replace(" ", "x")
            if m not in ms and "TsFile" not in m:
                ms.append(m)
            elif k < 3:
                ms.append("m%d" % len(ms))
        c.group("root.sg%d" % (n % 7), [(m, *COMBOS[j % len(COMBOS)]) for j, m in enumerate(ms)])
        fill(rng, c)
        c.close()
        yield c
    # paths of every length modulo the block of the hash
    for l in range(2, 70 if tier != "quick" else 40):
        c = Case("bloomlen-%d" % l)
        d = "d" * (l // 2)
        ms = ["".join(chr(rng.randrange(33, 127)) for _ in range(l - l // 2)) for _ in range(3)]
        c.group(d, [(m, "INT32", "PLAIN", "UNCOMPRESSED") for m in sorted(set(ms))])
        fill(rng, c)
        c.close()
        yield c


# ---------------------------------------------------------------------------
# The built-in limits, and uniform data.

def real_limits(rng, tier):
    """More points than fit in a page, with the limits as they are built in."""
    sizes = [8200] if tier == "quick" else [7988, 7989, 7990, 20000]
    combos = [c for k, c in enumerate(COMBOS) if tier != "quick" or k in (0, 3, 4, 7, 9)]
    for n in sizes:
        for k, (ty, enc, comp) in enumerate(combos):
            c = Case("real-%d-%s-%s-%s" % (n, ty, enc, comp[0]))
            c.uniform = comp == "UNCOMPRESSED"
            c.group("d", [("s", ty, enc, comp)])
            style = "any" if ty != "FLOAT" else "small"
            vs = values(rng, ty, n, style)
            ts = times(rng, n, "width62" if k % 2 and n <= 1 else ["step", "jitter", "wide"][k % 3])
            for t, v in zip(ts, vs):
                c.w("d", "s", t, ty, v)
            c.close()
            yield c


def uniform(rng, tier, n=None):
    """Uniform data under scaled limits: what is buffered has to be bounded."""
    for k in range(n or (40 if tier == "quick" else 200)):
        ty, enc, comp = [x for x in COMBOS if x[2] == "UNCOMPRESSED"][k % 5]
        ns = rng.choice([1, 2, 3, 5]) if k % 3 == 0 else rng.choice([3, 5, 8])
        nd = 2
        if k % 13 == 7:
            ns, nd = rng.choice([(24, 12), (30, 3), (20, 20)])
        few = None          # those that are written to, while the others stay empty
        if k % 5 == 4:
            ns, nd = rng.choice([(20, 20), (12, 12), (36, 4), (40, 20)])
            few = rng.sample(range(ns), rng.choice([1, 1, 2, 3]))
        active = sorted(few or range(ns))
        na = len(active)
        c = Case("uni-%d-%s-%s-%d" % (k, ty, enc, ns))
        c.uniform = True
        for s in range(ns):
            c.group("d%d" % (s % nd), [])
        c.groups, c.decl = [], {}
        for d in sorted({s % nd for s in range(ns)}):
            c.group("d%d" % d, [("s%d" % s, ty, enc, comp) for s in range(ns) if s % nd == d])
        page = 400 if nd > 2 else rng.choice([400, 600, 1000]) if k // 10 % 3 != 1 else rng.choice([3000, 5000])
        c.limits = {"page_size": page, "first_page_check": page // 9, "min_page_check": page // 40,
                    "group_size": page * na * rng.choice([6, 10]), "first_mem_check": 10}
        if k % 4 == 0:
            c.limits["max_points_in_page"] = 20
        total = min(14000 if na > 8 else 3000 if page <= 1000 else 3000 * na, 3 * c.limits["group_size"] // (8 if ty != "INT64" else 12))
        if k % 5 == 3:
            c.sink = "fault buffered=1"      # what is not flushed has not arrived
        # one by one, in batches, or first so and then otherwise
        batched = lambda i: ns > 1 and (k % 3 == 1 or k % 3 == 2 and (i > total // na // 5) == (k % 2 == 0))
        bits = 64 if ty == "INT64" else 30
        # regular or wide steps in time, random or constant values
        wide, const = k // 5 % 2, k // 10 % 3 == 1
        far = 0
        for i in range(total // na):
            far += 1000 + (rng.getrandbits(45) if wide else 0)
            any_value = lambda: 77 if const else rng.getrandbits(bits)
            if batched(i):
                for d in sorted({s % nd for s in active}):
                    c.b("d%d" % d, far + 5, [("s%d" % s, ty, any_value()) for s in active if s % nd == d])
            else:
                for s in active:
                    c.w("d%d" % (s % nd), "s%d" % s, far + s, ty, any_value())
        c.close()
        yield c


def limits_grid(rng, tier):
    """One history under many limits."""
    for h in range(2 if tier == "quick" else 8):
        seed = rng.getrandbits(30)
        for k in range(12 if tier == "quick" else 40):
            r = random.Random(seed)
            c = random_history(r, "grid-%d-%d" % (h, k), steps=120, refusals=0.1, batches=0.3, limits=False, after_close=0)
            random_limits(rng, c)
            yield c
    for mp in range(1, 10 if tier == "quick" else 30):
        for n in (mp, mp + 1, 2 * mp, 2 * mp + 1, 2 * mp + 2, 3 * mp + 3, 4 * (mp + 1)):
            ty, enc, comp = COMBOS[(mp + n) % len(COMBOS)]
            c = Case("pages-%d-%d" % (mp, n))
            c.limits = {"max_points_in_page": mp}
            c.group("d", [("s", ty, enc, comp)])
            for t, v in zip(times(rng, n, "jitter"), values(rng, ty, n, "finite")):
                c.w("d", "s", t, ty, v)
            c.close()
            yield c


# ---------------------------------------------------------------------------
# Numbers of things around the powers of two a counter may be too narrow for.

def many_pages(rng, tier):
    """Chunks of many pages."""
    for n in [127, 128, 255, 256, 257, 300] if tier == "quick" else [127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1025]:
        ty, enc, comp = COMBOS[n % len(COMBOS)]
        c = Case("pages-many-%d" % n)
        c.limits = {"max_points_in_page": 1}
        c.group("d", [("s", ty, enc, comp)])
        for t, v in zip(times(rng, 2 * n, "jitter"), values(rng, ty, 2 * n, "finite")):
            c.w("d", "s", t, ty, v)
        c.close()
        c.drop()
        yield c


def many_chunks(rng, tier):
    """Series of many chunks, next to one of few."""
    for n in [127, 128, 255, 256, 257, 300] if tier == "quick" else [127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1025]:
        c = Case("chunks-many-%d" % n)
        c.limits = {"first_mem_check": 2, "group_size": 1}
        ty, enc, comp = COMBOS[n % len(COMBOS)]
        c.group("d", [("s", ty, enc, comp), ("u", "INT64", "PLAIN", "SNAPPY")])
        for k, (t, v) in enumerate(zip(times(rng, 2 * n, "jitter"), values(rng, ty, 2 * n, "finite"))):
            c.w("d", "s", t, ty, v)
            if k in (5, n):
                c.w("d", "u", t, "INT64", k)
        c.close()
        c.drop()
        yield c


def many_points(rng, tier):
    """Pages of as many points as a narrow counter does not hold."""
    for n in [65535, 65536, 65537] if tier != "quick" else [65537]:
        c = Case("points-many-%d" % n)
        c.limits = {"first_page_check": n + 1, "max_points_in_page": n + 1}
        c.group("d", [("s", "INT32", "TS2DIFF", "UNCOMPRESSED")])
        for k in range(n):
            c.w("d", "s", 3 * k, "INT32", k & 1)
        c.close()
        yield c


def big_pages(rng, tier):
    """Chunks of several pages, each of more bytes than 16 bits count."""
    for k, (enc, comp) in enumerate([("PLAIN", "UNCOMPRESSED"), ("TS2DIFF", "SNAPPY")] + ([("TS2DIFF", "UNCOMPRESSED"), ("PLAIN", "SNAPPY")] if tier != "quick" else [])):
        c = Case("pages-big-%s-%s" % (enc, comp[0]))
        n = 4900
        c.limits = {"max_points_in_page": n, "first_page_check": 100000, "page_size": 1 << 24}
        c.group("d", [("s", "INT64", enc, comp)])
        t = 5
        for i in range(3 * (n + 1) if tier == "quick" else 4 * (n + 1) + 9):
            t += 1 + rng.getrandbits(48)
            c.w("d", "s", t, "INT64", rng.getrandbits(64))
        c.close()
        yield c


def huge_pages(rng, tier):
    """Pages of more bytes than 18 bits count (and, thorough, than 20), compressed and not."""
    n = 20000 if tier == "quick" else 80000
    for enc, comp in [("PLAIN", "SNAPPY"), ("TS2DIFF", "SNAPPY")] + ([("TS2DIFF", "UNCOMPRESSED"), ("PLAIN", "UNCOMPRESSED")] if tier != "quick" else []):
        c = Case("pages-huge-%s-%s" % (enc, comp[0]))
        c.limits = {"max_points_in_page": n, "first_page_check": 10 * n, "page_size": 1 << 28}
        c.group("d", [("s", "INT64", enc, comp)])
        t = 5
        for i in range(n + 9):
            t += 1 + rng.getrandbits(45)
            c.w("d", "s", t, "INT64", rng.getrandbits(64))
        c.close()
        yield c


def var(bs, o):
    v = k = 0
    while bs[o] > 127:
        v |= (bs[o] & 127) << k
        o, k = o + 1, k + 7
    return v | bs[o] << k, o + 1


def first_page(rec):
    """The sizes of the first chunk's data and of its first page, of a file whose names have one byte."""
    try:
        chunk, o = var(rec["file"], 7 + 3 + 3)
        return chunk, var(rec["file"], o + 3)[0]
    except (KeyError, IndexError):
        return 0, 0


def outline(rng, tier, run):
    """Sizes on both sides of where one byte more is needed to write them, up to four bytes, and names as long."""
    def case(cid):
        c = Case("outline-" + cid)
        c.outline = True
        c.limits = {"max_points_in_page": 1 << 22, "first_page_check": 1 << 22, "page_size": 1 << 29, "first_mem_check": 1 << 30}
        return c

    def small(c, s, n):
        for k in range(n):
            c.w("d", s, 3 * k, "INT32", k % 50)

    # pages and chunks of about 128 and of about 16384 bytes: every further point takes a byte
    c = case("128")
    ns = list(range(60, 121))
    c.group("d", [("s%d" % n, "INT32", "PLAIN", "UNCOMPRESSED") for n in ns])
    for n in ns:
        small(c, "s%d" % n, n)
    c.close()
    yield c
    trial = case("trial")
    trial.group("d", [("s", "INT32", "PLAIN", "UNCOMPRESSED")])
    small(trial, "s", 13000)
    trial.close()
    n = 13000 + int((16384 - first_page(run([trial]).get(trial.id, {}))[1]) * 0.842)
    c = case("16384")
    ns = list(range(n - 12, n + 13))
    c.group("d", [("s%d" % n, "INT32", "PLAIN", "UNCOMPRESSED") for n in ns])
    for n in ns:
        small(c, "s%d" % n, n)
    c.close()
    yield c
    # pages and chunks of about 2 MiB
    n, t = 201000, 5
    ts = [t := t + 1 + rng.getrandbits(43) for _ in range(n)]

    def long(c, s, excess=0):
        for k, t in enumerate(ts):
            v = [-1 << 31, 0][k < excess // 4] if k != excess // 4 else -1 << [31, 27, 20, 13][excess % 4]
            c.w("d", s, t, "INT32", v & 0xffffffff)
    trial = case("trial")
    trial.group("d", [("s", "INT32", "PLAIN", "UNCOMPRESSED")])
    long(trial, "s")
    trial.close()
    size = first_page(run([trial]).get(trial.id, {}))[1]
    for at in [0, 1] if tier == "quick" else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]:
        # (a chunk is some bytes longer than its page)
        c = case("2097152-%d" % at)
        c.group("d", [("s", "INT32", "PLAIN", "UNCOMPRESSED")])
        long(c, "s", max(0, min(4 * n - 4, size - 2097152 + at)))
        c.close()
        yield c
    for pages in [] if tier == "quick" else [2, 3, 17]:
        c = case("pages-%d" % pages)
        c.limits.update(max_points_in_page=-(-n // pages))
        c.group("d", [("s", "FLOAT", "PLAIN", "SNAPPY"), ("u", "INT32", "PLAIN", "UNCOMPRESSED")])
        long(c, "u")
        for k in range(70000):
            c.w("d", "s", 5 * k, "FLOAT", rng.getrandbits(30))
        c.close()
        yield c
    for dn, mn in [(2, 1048576)] if tier == "quick" else [(1048575, 3), (1048576, 4), (2, 1048576), (4, 1048575), (1048577, 1048577)]:
        c = case("names-%d-%d" % (dn, mn))
        c.group("d" * dn, [("m" * mn, "INT32", "PLAIN", "UNCOMPRESSED"), ("s", "INT64", "TS2DIFF", "SNAPPY")])
        c.w("d" * dn, "m" * mn, 1, "INT32", 5)
        c.w("d" * dn, "s", 1, "INT64", 5)
        c.w("d" * dn, "m" * mn, 2, "INT32", 6)
        c.close()
        yield c


def long_batches(rng, tier, upto=None):
    """Batches of many points, also with a point refused late in them."""
    for k, n in enumerate([127, 128, 255, 256, 257, 300, 1024, 1300] if tier == "quick" else [127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1001, 1024, 1025, 2050, 4100]):
        for bad in (None, n - 1, n // 2 + 3, 0):
            if upto and n > upto:
                continue
            if n > 500 and bad == n // 2 + 3:
                continue
            c = Case("longbatch-%d-%s" % (n, bad))
            combos = [COMBOS[(j + k) % len(COMBOS)] for j in range(n)]
            if n > 1000:
                combos = [x[:2] + ("UNCOMPRESSED",) for x in combos]
            c.group("d", [("s%d" % j, *combos[j]) for j in range(n)])
            pts = [("s%d" % j, combos[j][0], val(rng, combos[j][0], "small")) for j in rng.sample(range(n), n)]
            c.b("d", 10, pts if bad is None else pts[:bad] + [("nomeasurement", "INT32", 5)] + pts[bad:])
            # the same time again for what has it by now, and for what has not
            for m, ty, v in rng.sample(pts, 9):
                c.w("d", m, rng.choice([10, 10, 9]), ty, v)
            for m, ty, v in [pts[0], pts[n // 2], pts[-1]]:
                c.b("d", 10, [(m, ty, v)])
            c.b("d", 11, pts[:5])
            c.close()
            yield c


def large(rng, tier, shapes):
    """Numbers of series, chunks and pages of five digits: shapes are (devices, measurements, points of each),
    ("chunks", n), ("pages", n) or ("stale", devices, measurements): points that come too late for them."""
    for sh in shapes:
        c = Case("large-" + "-".join(map(str, sh)))
        c.large = True
        if sh[0] in ("chunks", "pages"):
            ty, enc, comp = COMBOS[sh[1] % len(COMBOS)]
            c.group("d", [("s", ty, enc, comp), ("u", "INT32", "PLAIN", "SNAPPY")])
            c.limits = {"max_points_in_page": 1} if sh[0] == "pages" else {"first_mem_check": 2, "group_size": 1}
            c.w("d", "u", 7, "INT32", 1)
            for t in range(2 * sh[1]):
                c.w("d", "s", 3 * t, ty, val(rng, ty, "small"))
        elif sh[0] == "stale":
            _, nd, nm = sh
            of = lambda d, m: COMBOS[(d + m) % len(COMBOS)]
            c.limits = {"first_mem_check": nd * nm // 2 + 3, "group_size": 2000}
            for d in range(nd):
                c.group("d%d" % d, [("s%d" % m, *of(d, m)) for m in range(nm)])
            keys = [(d, m) for d in range(nd) for m in range(nm)]
            put = lambda d, m, t: c.w("d%d" % d, "s%d" % m, t, of(d, m)[0], val(rng, of(d, m)[0], "small"))
            for d, m in keys:
                put(d, m, 10 + (d + m) % 3)
            # others first, and some again once it was flushed
            rng.shuffle(keys)
            for k, (d, m) in enumerate(keys):
                put(d, m, [9, 10 + (d + m) % 3, 0][k % 3])
                if k % 2:
                    put(d, m, 20 + k % 2)
                    put(d, m, [20, 21, 12][k % 3])
            for d in range(nd)[::max(1, nd // 40)]:
                ms = rng.sample(range(nm), min(nm, 30))
                c.b("d%d" % d, 20, [("s%d" % m, of(d, m)[0], val(rng, of(d, m)[0], "small")) for m in ms])
        else:
            nd, nm, n = sh
            of = lambda d, m: COMBOS[(d + m) % len(COMBOS)]
            for d in range(nd):
                c.group("d%d" % d, [("s%d" % m, *of(d, m)) for m in range(nm)])
            for k in range(n):
                for d in range(nd):
                    if k % 2 == 0 and nm > 1:
                        c.b("d%d" % d, 10 * k + d % 3, [("s%d" % m, of(d, m)[0], val(rng, of(d, m)[0], "small")) for m in range(nm)])
                    else:
                        for m in range(nm):
                            c.w("d%d" % d, "s%d" % m, 10 * k + m % 3, of(d, m)[0], val(rng, of(d, m)[0], "small"))
        c.close()
        yield c


LARGE = {"C01": [(40, 300, 2)], "C02": [("stale", 2500, 1), ("stale", 1, 2500), ("stale", 50, 50)], "C03": [("stale", 40, 40)], "C04": [(6000, 1, 1), ("pages", 5000), ("chunks", 1500)], "C05": [(300, 40, 1), ("chunks", 3000), (1, 6000, 1)],
         "C06": [("pages", 5000), ("chunks", 1500)], "C07": [(1, 12000, 1), (9000, 1, 1), (70, 90, 1)], "C10": [(1, 12000, 1), (3, 4000, 1), ("stale", 3, 700)],
         "C15": [(90, 60, 1)]}
LARGER = {"C01": [(1, 30000, 2), (260, 260, 1)], "C02": [("stale", 20000, 1), ("stale", 1, 20000), ("stale", 260, 260)], "C03": [("stale", 1, 10000)], "C04": [(66000, 1, 1), ("pages", 66000), ("chunks", 66000)],
          "C05": [(1, 66000, 1), (66000, 1, 1), (260, 260, 1), ("chunks", 66000)], "C06": [("pages", 66000), ("chunks", 66000)],
          "C07": [(1, 66000, 1), (260, 260, 1), (20000, 1, 1), (2, 15000, 1)], "C10": [(1, 66000, 1), (2, 33000, 1)], "C15": [(260, 260, 1)]}


# ---------------------------------------------------------------------------
# Faults.

def small_history(rng, cid, k, wide=False):
    c = Case(cid)
    if k % 3 == 0 and not wide:
        c.group("d", [("s", *COMBOS[k % 10])])
        n = 6
    elif k % 4 == 1 and not wide:            # an index of several levels, and many batches
        for d in ("d1", "d2", "d3", "d4"):
            c.group(d, [(m, *COMBOS[(k + j) % 10]) for j, m in enumerate("abc" if d < "d3" else "a")])
        c.degree = 2
        n = 18
    elif wide:
        for d in range(9):
            c.group("device%d" % d, [("s%d" % j, *COMBOS[(k + j + d) % 10]) for j in range(5)])
        c.degree = 4
        n = 140
    else:
        c.group("d1", [("a", *COMBOS[k % 10]), ("b", *COMBOS[(k + 3) % 10])])
        c.group("d2", [("a", *COMBOS[(k + 6) % 10])])
        n = 14
    c.limits = {"max_points_in_page": 1 + k % 4, "first_mem_check": 3, "group_size": (600, 350, 200, 100)[k % 4]}
    ss = sorted(c.decl)
    for i in range(n):
        d, m = ss[i % len(ss)] if rng.random() < 0.8 else rng.choice(ss)
        t = c.last.get((d, m), -1) + rng.randrange(1, 4)
        ty = c.decl[(d, m)][0]
        if i % 5 == 4 or k % 4 == 1 and i % 3:
            c.b(c.names[d - 1], t, [(c.names[m - 1], ty, val(rng, ty))])
        else:
            c.w(c.names[d - 1], c.names[m - 1], t, ty, val(rng, ty))
        if rng.random() < 0.1:
            c.w(c.names[d - 1], c.names[m - 1], 0, ty, 1)
    return c


def fault_cases(rng, tier, run):
    """Every way a sink can misbehave, at every point of some small histories.
    `run' executes cases and returns their records."""
    bases = []
    for k in range(4 if tier == "quick" else 12):
        c = small_history(random.Random(rng.getrandbits(30)), "flt%d" % k, k)
        bases.append(c)
    c = small_history(random.Random(rng.getrandbits(30)), "fltwide", 3, wide=True)
    c.limits["group_size"] = 3000
    bases.append(c)
    seeds = [(c, list(c.ops)) for c in bases]
    for c, _ in seeds:
        c.close()
    recs = run(bases)
    for c, ops in seeds:
        rec = recs[c.id]
        if rec.get("abort"):
            continue
        calls, size, flushes = rec["calls"], len(rec["file"]), rec["flushes"]
        tails = [[("close", False)],
                 [("close", False), ("close", False), ops[0], ("close", False), ("drop", False)]]

        def variant(tag, sink, tail):
            v = Case("%s-%s" % (c.id, tag))
            v.names, v.index, v.groups, v.decl, v.limits, v.degree = c.names, c.index, c.groups, c.decl, c.limits, c.degree
            v.ops = ops + tail
            v.sink = sink
            return v
        for s in (1, 2, 3, 7, 16):
            for i in (0, 2, 3):
                v = variant("short%d-%d" % (s, i), "fault short=%d intr=%d" % (s, i), tails[1])
                v.twins = ["nofault"]
                yield v
        for s in ("", " short=5", " intr=3"):
            v = variant("buffered%d" % len(s), "fault buffered=1" + s, tails[1])
            v.twins = ["buffered"]
            yield v
            for n in range(1, flushes + 1):
                yield variant("bufferedf%d-%d" % (n, len(s)), "fault buffered=1 failf=%d%s%s" % (n, s, " once=1" if n % 2 else ""), tails[1])
        step = max(1, calls // 150)      # larger histories: some of them, and all the last ones
        off = rng.randrange(step)
        for n in sorted(set(range(1 + off, calls + 1, step)) | set(range(max(1, calls - 30), calls + 1))):
            k = n % 3
            yield variant("failw%d" % n, "fault failw=%d" % n, tails[n % 2])
            yield variant("oncew%d" % n, "fault failw=%d once=1" % n, tails[1])
            if k == 0 or tier != "quick":
                yield variant("zerow%d" % n, "fault failw=%d zero=1" % n, tails[0])
            if k == 1 or tier != "quick":
                yield variant("shortw%d" % n, "fault failw=%d short=2 intr=5" % n, tails[0])
        for n in range(rng.randrange(3), size, max(3 if tier == "quick" else 1, size // 400)):
            yield variant("failb%d" % n, "fault failb=%d%s" % (n, " once=1" if n % 2 else ""), tails[1])
        for n in range(1, flushes + 1):
            yield variant("failf%d" % n, "fault failf=%d" % n, tails[1])
            yield variant("oncef%d" % n, "fault failf=%d once=1" % n, tails[1])


# ---------------------------------------------------------------------------
# Files on disk.

def on_disk(rng, n, workdir, prefix="disk", **kw):
    import os
    for i in range(n):
        c = random_history(rng, "%s%d" % (prefix, i), **kw)
        path = [os.path.join(workdir, "f%s%d.tsfile" % (prefix, i)), os.path.join(workdir, "sub-%s%d" % (prefix, i), "dir", "f.tsfile"),
                "rel%s%d.tsfile" % (prefix, i)][i % 3]
        c.sink = "file " + path.encode().hex()
        if i % 4 == 3:          # the file exists and is longer than what will be written
            with open(os.path.join(workdir, path) if not path.startswith("/") else (os.makedirs(os.path.dirname(path), exist_ok=True) or path), "wb") as f:
                f.write(b"TsFile old content " * 500)
        yield c


def full_disk(rng, tier, run, workdir):
    """Files that take only so many bytes."""
    import os
    bases = [small_history(random.Random(rng.getrandbits(30)), "full%d" % k, k + 1) for k in range(3 if tier == "quick" else 10)]
    ops = [list(c.ops) for c in bases]
    for c in bases:
        c.limits["group_size"] = 300
        c.close()
    recs = run(bases)
    for c, o in zip(bases, ops):
        rec = recs[c.id]
        if rec.get("abort"):
            continue
        size, lens = len(rec["file"]), {e["len"] for e in rec["ev"]}
        for n in range(0, size + 1, 1 if tier != "quick" else 3):
            if n in lens and n != size:
                continue
            v = Case("%s-%d" % (c.id, n))
            v.names, v.index, v.groups, v.decl, v.limits, v.degree = c.names, c.index, c.groups, c.decl, c.limits, c.degree
            v.ops = o + [("close", False), ("close", False), o[0], ("close", False), ("drop", False)]
            v.sink = "full %s %d" % (os.path.join(workdir, v.id + ".tsfile").encode().hex(), n)
            yield v


def unwritable(rng, workdir):
    import os
    os.makedirs(os.path.join(workdir, "adir"), exist_ok=True)
    with open(os.path.join(workdir, "afile"), "w") as f:
        f.write("x")
    for k, p in enumerate(["adir", "afile/x.tsfile", "afile/y/x.tsfile", "", ".", "..", "/", "adir/", "/proc/nowhere/x.tsfile", "/dev/full", "x" * 300 + ".tsfile"]):
        c = Case("unwritable%d" % k)
        c.unwritable = "write" if p == "/dev/full" else "open"
        c.group("d", [("s", "INT32", "PLAIN", "SNAPPY")])
        c.sink = "file " + (os.path.join(workdir, p) if p and not p.startswith(("/", ".")) else p).encode().hex() if p else "file -"
        c.w("d", "s", 1, "INT32", 1)
        c.close()
        c.drop()
        yield c


# ---------------------------------------------------------------------------
# Schemas.

def declarations(rng, n):
    for i in range(n):
        c = Case("decl%d" % i)
        devs = ["d%d" % k for k in range(rng.randrange(1, 4))]
        ms = ["s%d" % k for k in range(rng.randrange(1, 4))]

        def declare(ds):
            again = len(c.groups) > 0 and rng.random() < 0.35
            c.group(rng.choice(ds), [(rng.choice(ms + ["late"]), *rng.choice(COMBOS)) for _ in range(rng.randrange(0 if again else 1, 4))],
                    [(rng.choice(ms + ["late"]), *rng.choice(COMBOS)) for _ in range(rng.randrange(0, 3))], again=again)
        for _ in range(rng.randrange(1, 6)):
            declare(devs)
        c.late = len(c.groups)
        c.rebuild = rng.random() < 0.4
        for _ in range(rng.randrange(0, 3)):
            declare(devs + ["latedevice"])
        # every series with every type
        t = 0
        for d in devs + ["latedevice"]:
            for m in ms + ["late"]:
                for ty in rng.sample(TYPES, 3):
                    t += 1
                    c.w(d, m, t, ty, val(rng, ty))
        if i % 2:
            c.limits = {"max_points_in_page": 1, "first_mem_check": 2, "group_size": 600}
        c.close()
        yield c


def unavailable(rng, n):
    """Declared encodings that do not exist for the type."""
    for i in range(n):
        c = Case("unav%d" % i)
        combos = COMBOS + [("FLOAT", "TS2DIFF", "SNAPPY"), ("FLOAT", "TS2DIFF", "UNCOMPRESSED")] * 4
        c = random_history(rng, "unav%d" % i, steps=40, combos=combos)
        yield c


def long_refusals(rng, tier):
    """Many refusals for every reason in a row, with accepted points before, between and after."""
    n = 300 if tier == "quick" else 3000
    kinds = {
        "device": lambda c, k, t: c.w("nodevice", "s", t, "INT32", k),
        "measurement": lambda c, k, t: c.w("d", "nomeasurement%d" % (k % 3), t, "INT32", k),
        "type": lambda c, k, t: c.w("d", "s", t, ["INT64", "FLOAT", "DOUBLE"][k % 3], k),
        "late": lambda c, k, t: c.w("d", "s", t - 10 - k % 5, "INT32", k),
        "negative": lambda c, k, t: c.w("d", "u", -1 - k * k, "INT64", k),
        "encoding": lambda c, k, t: c.w("d", "f", t + k, "FLOAT", fbits(k)),
        "batch": lambda c, k, t: c.b("d", t, [("nomeasurement", "INT32", k), ("s", "INT32", k)] if k % 2 else [("s", "INT64", k)]),
    }
    for j, (name, refuse) in enumerate(list(kinds.items()) + [("all", lambda c, k, t: list(kinds.values())[k % len(kinds)](c, k, t))]):
        c = Case("refusals-" + name)
        c.group("d", [("s", "INT32", ["PLAIN", "TS2DIFF"][j % 2], "SNAPPY"), ("u", "INT64", "PLAIN", "UNCOMPRESSED"), ("f", "FLOAT", "TS2DIFF", "SNAPPY")])
        c.limits = [{}, {"max_points_in_page": 3, "first_mem_check": 5, "group_size": 700}][j // 2 % 2]
        t = 1000
        for k in range(n):
            if k % 97 == 0:
                t += 10
                c.w("d", "s", t, "INT32", k)
                c.w("d", "u", t, "INT64", k)
            refuse(c, k, t + 5 if name != "late" else t)
        for k in range(20):
            t += 10
            c.w("d", "s", t, "INT32", k)
            c.w("d", "u", t, "INT64", k)
        c.close()
        c.drop()
        yield c


def determinism(rng, n, steps=60):
    for i in range(n):
        c = random_history(rng, "det%d" % i, steps=steps, late=False, max_devices=6, max_series=6)
        c.twins = ["process", "elsewhere", "redeclared", "threads", "interleaved"]
        yield c
    for c in [index_case(rng, "det-big", 30, 12, 4), index_case(rng, "det-devices", 300, 1, order="shuffle"), index_case(rng, "det-measurements", 2, 290, order="shuffle"),
              index_case(rng, "det-flushes", 40, 3, flushes=4, order="shuffle")]:
        c.twins = ["process", "elsewhere", "redeclared", "threads", "interleaved"]
        yield c


def batches(rng, n):
    for i in range(n):
        yield random_history(rng, "bat%d" % i, steps=40, batches=0.9, refusals=0.35, max_series=5)


def after_close(rng, n):
    for i in range(n):
        yield random_history(rng, "cl%d" % i, steps=rng.choice([1, 1, 5, 40]), after_close=1.0, close=1.0)


def abandoned(rng, n):
    for i in range(n):
        yield random_history(rng, "ab%d" % i, steps=80, close=0.0, refusals=0.1)
