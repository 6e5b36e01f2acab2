"""Plans: what the harness is told to do.  A plan has no opinion about what
should come of it, except that the generator knows which calls it means to be
refused (to make the twin run without them)."""
import random, struct

I64MAX = (1 << 63) - 1
MASK64 = (1 << 64) - 1
TYPES = ["INT32", "INT64", "FLOAT"]
COMPS = ["UNCOMPRESSED", "SNAPPY"]
COMBOS = [(t, e, c) for t in TYPES for e in (["PLAIN", "TS2DIFF"] if t != "FLOAT" else ["PLAIN"]) for c in COMPS]


def fbits(x):
    return struct.unpack(">I", struct.pack(">f", x))[0]


class Case:
    def __init__(self, cid):
        self.id = cid
        self.names = []          # bytes
        self.index = {}
        self.groups = []         # [device, [ms], [late ms], by the builder of the one before]
        self.late = None
        self.rebuild = False
        self.limits = {}
        self.degree = 256
        self.start = 0           # where the first byte of the file lies
        self.sink = "mem"
        self.ops = []            # (op text, meant to be refused)
        self.uniform = False
        self.large = False       # looked at as a whole, by Large.tla
        self.outline = False     # only its structure, by Outline.tla
        self.unwritable = "no"
        self.twins = []          # [(kind, Case or None)]
        self.decl = {}
        self.last = {}
        self.why = ""

    def name(self, s):
        b = s if isinstance(s, bytes) else s.encode()
        if b not in self.index:
            self.names.append(b)
            self.index[b] = len(self.names)
        return self.index[b]

    def group(self, d, ms, late_ms=(), again=False):
        """ms: [(name, type, encoding, compression)]"""
        self.groups.append([self.name(d), [(self.name(m), *r) for m, *r in ms], [(self.name(m), *r) for m, *r in late_ms], again])
        if not again:
            self.given = []
        self.given = self.given + self.groups[-1][1]
        if self.late is None or self.rebuild:
            for k in [k for k in self.decl if k[0] == self.name(d)]:
                del self.decl[k]
            for m, t, e, c in self.given:
                self.decl[(self.name(d), m)] = (t, e, c)
        self.given = self.given + self.groups[-1][2]
        return self

    def refused(self, d, m, t, ty):
        decl = self.decl.get((d, m))
        return (decl is None or decl[0] != ty or (decl[0] == "FLOAT" and decl[1] == "TS2DIFF")
                or t < 0 or t <= self.last.get((d, m), -1))

    def w(self, d, m, t, ty, bits):
        d, m = self.name(d), self.name(m)
        ref = self.refused(d, m, t, ty)
        if not ref:
            self.last[(d, m)] = t
        self.ops.append(("w %d %d %x %s %x" % (d, m, t & MASK64, ty, bits), ref))
        return not ref

    def b(self, d, t, pts):
        d = self.name(d)
        pts = [(self.name(m), ty, bits) for m, ty, bits in pts]
        stop, keep = False, []
        for m, ty, bits in pts:
            if not stop and not self.refused(d, m, t, ty):
                self.last[(d, m)] = t
                keep.append((m, ty, bits))
            else:
                stop = True
        f = lambda ps: "b %d %x %s" % (d, t & MASK64, " ".join("%d %s %x" % p for p in ps))
        self.ops.append((f(pts), f(keep) if stop and keep else stop))

    def op(self, s):
        self.ops.append((s, False))

    def close(self):
        self.op("close")

    def drop(self):
        self.op("drop")

    def text(self, cid=None, groups=None, ops=None, sink=None):
        o = ["case " + (cid or self.id)]
        o += ["name " + (n.hex() or "-") for n in self.names]
        o += ["limit %s %d" % kv for kv in sorted(self.limits.items())]
        o.append("degree %d" % self.degree)
        if self.start:
            o.append("start %x" % self.start)
        o.append("sink " + (sink or self.sink))
        gs = groups if groups is not None else self.groups
        if self.rebuild:
            o.append("rebuild")
        for n, (d, ms, lms, again) in enumerate(gs):
            if self.late is not None and n == self.late:
                o.append("late")
            o.append("group %d" % d)
            if again:
                o.append("again")
            o += ["m %d %s %s %s" % m for m in ms]
            o += ["lm %d %s %s %s" % m for m in lms]
        if self.late is not None and self.late >= len(gs):
            o.append("late")
        o.append("new")
        o += ops if ops is not None else [t for t, _ in self.ops]
        o.append("end")
        return "\n".join(o)

    def twin_items(self, rng):
        """Plans of the twin runs: [(kind, id, text)]."""
        res = []
        for kind in self.twins:
            cid = self.id + "+" + kind
            if kind in ("process", "elsewhere", "threads", "interleaved"):
                res.append((kind, cid, self.text(cid)))
            elif kind == "redeclared":
                # the order of declarations of different devices and measurements is irrelevant
                # (only for schemas without repeated declarations)
                gs = [[d, list(ms), list(l), a] for d, ms, l, a in self.groups]
                assert not any(g[3] for g in gs)
                for g in gs:
                    rng.shuffle(g[1])
                rng.shuffle(gs)
                res.append((kind, cid, self.text(cid, groups=gs)))
            elif kind == "unrefused":
                ops = []
                for t, r in self.ops:
                    if r is True:
                        continue
                    ops.append(r if isinstance(r, str) else t)
                res.append((kind, cid, self.text(cid, ops=ops)))
            elif kind in ("nofault", "buffered"):
                res.append((kind, cid, self.text(cid, sink="mem")))
            elif kind == "capi":
                pass
        return res
