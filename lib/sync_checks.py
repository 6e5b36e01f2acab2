"""Checks of the sync sender: scripts from the protocol model (Sync.tla), run
against the real sender, validated with SyncTrace.tla."""
import hashlib, json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import race
from common import *
from families import *
from plans import *


class SyncCase:
    def __init__(self, cid):
        self.id = cid
        self.names = []
        self.index = {}
        self.lines = []
        self.why = ""

    def name(self, s):
        b = s if isinstance(s, bytes) else s.encode()
        if b not in self.index:
            self.names.append(b)
            self.index[b] = len(self.names)
        return self.index[b]

    def schema(self, groups):
        """groups: [(device, [(measurement, type, encoding, compression)])]"""
        self.groups = [(self.name(d), [(self.name(m), *r) for m, *r in ms]) for d, ms in groups]
        return self

    def add(self, *words):
        self.lines.append(" ".join(hexed(w) if isinstance(w, bytes) else str(w) for w in words))
        return self

    def text(self):
        o = ["case " + self.id] + ["name " + hexed(n) for n in self.names]
        for d, ms in getattr(self, "groups", []):
            o.append("group %d" % d)
            o += ["m %d %s %s %s" % m for m in ms]
        return "\n".join(o + self.lines + ["end"])


def hexed(b):
    return b.hex() or "-"


SGS = [b"root.sg", b"root.sg1", b"root", "root.größe".encode(), b"root.a.b.c.d", b"root.sg_" + b"x" * 300, b"s"]
DEVS = ["d1", "d2", "device_3", "a.b", "größe", "d", "dev-with-dash", "x" * 120, "root.d"]
MEAS = ["s1", "s2", "temperature", "é", "m.n", "s", "status", "y" * 200, "S1"]


def random_schema(rng, nd=None, nm=None):
    gs = []
    for d in rng.sample(DEVS, nd if nd is not None else rng.choice([1, 1, 2, 3])):
        gs.append((d, [(m, *rng.choice(COMBOS)) for m in rng.sample(MEAS, nm or rng.choice([1, 2, 3, 5]))]))
    return gs


def zeros_data(rng, nibbles):
    """Data whose digest begins with so many zeros."""
    while True:
        b = bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 40)))
        if hashlib.sha256(b).hexdigest().startswith("0" * nibbles):
            return b


def scripts(workdir):
    """All behaviours of the model, as scripts; and the model's statistics."""
    ok, text, stats = tlc_check("Sync", "SyncScripts", workdir)
    if not ok:
        raise ToolError("the protocol model does not check: " + text[-1500:])
    res = set()
    for line in text.splitlines():
        m = re.match(r'^"@@(.*)"$', line.strip())
        if m:
            res.add(json.loads('"' + m.group(1) + '"'))
    ok2, text2, stats2 = tlc_check("Sync", "SyncModel", workdir)
    if not ok2:
        raise ToolError("the protocol model does not check: " + text2[-1500:])
    for k in ("states", "transitions"):
        stats[k] += stats2[k]
    return [json.loads(s) for s in sorted(res)], stats


BAD_ADDRESSES = [b"nowhere", b"127.0.0.1", b"127.0.0.1:99999", b"127.0.0.1:", b":", b"127.0.0.1:port", b"[::1", b"-1:-1"]


def answers_line(c, kinds):
    if kinds:
        c.add("answers", *kinds)


def connect(c, rng, reach, addr=b"10.1.2.3", uuid=b"0123456789abcdef0123456789abcdef"):
    to = {"listening": "listening", "refused": "refused"}.get(reach) or "to:" + hexed(rng.choice(BAD_ADDRESSES))
    c.add("connect", addr if addr is not None else "none", uuid if uuid is not None else "none", to)


def from_script(rng, cid, s, schema=None, data=None):
    c = SyncCase(cid)
    c.schema(schema if schema is not None else random_schema(rng, 1, rng.choice([1, 2])))
    sg = rng.choice(SGS[:3])
    c.add("mlog", sg)
    c.add("mkdir", b"folder")
    c.add("put", b"empty.tsfile", b"")
    names = []
    for k, f in enumerate(s["sessions"]):
        if f == "data":
            nm = rng.choice([b"1-1-0-0.tsfile", b"data.bin", "größe.tsfile".encode(), b"x"])
            d = data if data is not None else bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 7, 54, 55, 56, 63, 64, 65, 120, 200])))
            c.add("put", nm, d)
        else:
            nm = {"empty": b"empty.tsfile", "missing": b"missing.tsfile", "dir": b"folder"}[f]
        names.append(nm)
    answers_line(c, s["answers"])
    uuid = rng.choice([b"0123456789abcdef0123456789abcdef", b"an identity of my own", "é".encode(), b"", None])
    connect(c, rng, s["reach"], addr=rng.choice([b"10.1.2.3", b"127.0.0.1", b"fe80::1", b"", None]), uuid=uuid)
    for nm in names:
        c.add("sync", sg, nm)
    c.add("bye")
    return c


def model_cases(rng, all_scripts, limit):
    one = [s for s in all_scripts if len(s["sessions"]) <= 1 and sum(a != "ok" for a in s["answers"]) <= 1]
    rest = [s for s in all_scripts if s not in one] if limit is None or len(one) < limit else []
    if limit is not None:
        rng.shuffle(one)
        one = one[:limit]
        seen = {json.dumps(s) for s in one}
        rest = [s for s in all_scripts if json.dumps(s) not in seen]
        rng.shuffle(rest)
        rest = rest[:max(0, limit // 3)]
    return [from_script(rng, "model%d" % k, s) for k, s in enumerate(one + rest)]


def plain_sessions(rng, tier):
    """Successful sessions over many schemas, names and data."""
    ok = {"reach": "listening", "answers": [], "sessions": ["data"]}
    out = []
    n = 60 if tier == "quick" else 600
    for k in range(n):
        two = dict(ok, sessions=["data"] * rng.choice([1, 1, 2, 3]))
        out.append(from_script(rng, "plain%d" % k, two, schema=random_schema(rng, rng.choice([0, 1, 2, 4]))))
    for k in range(8 if tier == "quick" else 60):
        out.append(from_script(rng, "zeros%d" % k, ok, data=zeros_data(rng, 1 if k % 4 else 3)))
    # a receiver that takes its time, at each request; and a sender that does between its sessions
    for k in range(11):
        c = from_script(rng, "slow%d" % k, dict(ok, answers=["ok"] * k + [["okslow"], ["okslow"], ["refuseslow"]][k % 3], sessions=["data", "data"]))
        out.append(c)
    c = from_script(rng, "pause", dict(ok, sessions=["data", "data"]))
    at = [k for k, l in enumerate(c.lines) if l.startswith("sync")]
    c.lines.insert(at[0], "pause 2500")
    c.lines.insert(at[1] + 1, "pause 3500")
    out.append(c)
    for k, size in enumerate([4096, 5000, 65536, 70000, 1049000] + ([200000, 1 << 20, 5000000] if tier != "quick" else [])):
        c = SyncCase("big%d" % k).schema(random_schema(rng, 1, 1))
        c.add("mlog", b"root.sg").add("gen", b"big.tsfile", size, k)
        connect(c, rng, "listening")
        c.add("sync", b"root.sg", b"big.tsfile").add("bye")
        out.append(c)
    # many sessions of one sender, files in other places, with names of all kinds, and the same one again after it changed
    names = [b"a name with blanks.tsfile", b"./here.tsfile", b"sub/inner.tsfile", b"sub dir/x", b"sub/../sub/up.tsfile", b"0_0_x.tsfile", b".hidden", b"100%.tsfile",
             "日本.tsfile".encode(), b"x" * 200, b"mlog.bin", b"uuid.lock.x", b"-", b"tab\tline\n", b"\\back\\slash", b"sub/", b"CON.tsfile"]
    for k in range(2 if tier == "quick" else 20):
        c = SyncCase("names%d" % k).schema(random_schema(rng, 1, 1))
        c.add("mkdir", b"sub").add("mkdir", b"sub dir")
        connect(c, rng, "listening")
        for j in range(len(names) if k else 150):
            nm = names[j % len(names)]
            if nm != b"sub/":
                c.add("put", nm, bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 30, 64]))))
            c.add("sync", rng.choice(SGS[:4]), nm)
        c.add("bye")
        out.append(c)
    # connections lost, or refusals, at any request around larger ones
    for k in range(1, 10):
        for a in ["drop", "close", "refuse", "trunc"] if k in (3, 4, 6, 7) or tier != "quick" else ["drop"]:
            c = SyncCase("lost%d-%s" % (k, a)).schema(random_schema(rng, 1, 1))
            c.add("gen", b"large.tsfile", 40000 if tier == "quick" else 150000, k)
            answers_line(c, ["ok"] * k + [a])
            connect(c, rng, "listening")
            c.add("sync", b"root.sg", b"large.tsfile").add("sync", b"root.sg", b"large.tsfile").add("bye")
            out.append(c)
    # a schema of many series in a session
    for k, (nd, nm) in enumerate([(3, 40), (60, 2)]):
        c = SyncCase("wide%d" % k).schema([("d%d" % i, [("s%d" % j, *COMBOS[(i + j) % len(COMBOS)]) for j in range(nm)]) for i in range(nd)])
        c.add("put", b"x", b"123")
        connect(c, rng, "listening")
        c.add("mlog", b"root.sg").add("sync", b"root.sg", b"x").add("sync", b"root.sg", b"x").add("bye")
        out.append(c)
    return out


def handshakes(rng, tier):
    out = []
    kinds = ["ok"] * 4 + ["okstrict", "okextra", "okpieces", "okbig", "okcode", "okzero", "refuse", "refusepieces", "refusebig", "refuseempty", "refusestrict", "exception", "wrongname", "wrongseq",
             "call", "noresult", "nocode", "nomsg", "badutf8", "trunc", "half", "garbage", "badtype", "text", "zeroframe",
             "close", "drop"]
    addrs = [b"10.1.2.3", b"", "größe".encode(), b"x" * 1000, None]
    ids = [b"0123456789abcdef0123456789abcdef", b"", "ünïcode".encode(), b"y" * 5000, b"with-dashes-AND-CAPS", None]
    for k in range(500 if tier == "quick" else 3000):
        c = SyncCase("hand%d" % k)
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.9:
                answers_line(c, [rng.choice(kinds)])
                connect(c, rng, "listening", rng.choice(addrs), rng.choice(ids))
            else:
                connect(c, rng, rng.choice(["refused", "bad"]), rng.choice(addrs), rng.choice(ids))
            if rng.random() < 0.5:
                c.add("bye")
        c.add("bye")
        out.append(c)
    # a receiver that takes its time
    for k, a in enumerate(["okslow", "refuseslow"]):
        c = SyncCase("slow%d" % k)
        answers_line(c, [a])
        connect(c, rng, "listening")
        c.add("bye")
        out.append(c)
    for k, a in enumerate(BAD_ADDRESSES):
        c = SyncCase("addr%d" % k)
        c.add("connect", b"10.1.2.3", b"id", "to:" + hexed(a))
        out.append(c)
    return out


def mlogs(rng, tier):
    out = []
    for k in range(250 if tier == "quick" else 2500):
        c = SyncCase("mlog%d" % k)
        gs = random_schema(rng, rng.choice([0, 1, 1, 2, 3, 6]), rng.choice([None, 1, 8]))
        if rng.random() < 0.3 and gs:
            gs.append((gs[0][0], [(m, *rng.choice(COMBOS)) for m in rng.sample(MEAS, 2)]))
        if rng.random() < 0.3 and gs:
            m = rng.choice(gs[-1][1])[0]
            gs[-1][1].append((m, *rng.choice(COMBOS)))
        c.schema(gs)
        c.add("mlog", rng.choice(SGS))
        out.append(c)
    for k, (nd, nm) in enumerate([(1, 1500), (600, 2), (30, 30)] if tier == "quick" else [(1, 3000), (1000, 2), (100, 50)]):
        c = SyncCase("manyseries%d" % k)
        c.schema([("d%d" % i, [("s%d" % j, *COMBOS[(i + j) % len(COMBOS)]) for j in range(nm)]) for i in range(nd)])
        c.add("mlog", b"root.sg")
        out.append(c)
    # logs of more than 64 KiB
    for k, (nd, nm, dl, ml) in enumerate([(10, 40, 200, 30), (3, 20, 1100, 200)] if tier == "quick" else [(10, 200, 90, 30), (60, 20, 1, 300), (2, 3, 40000, 9000)]):
        c = SyncCase("longlog%d" % k)
        c.schema([("d%d" % i + "x" * dl, [("s%d" % j + "y" * ml, *COMBOS[(i * j) % len(COMBOS)]) for j in range(nm)]) for i in range(nd)])
        c.add("mlog", b"root.sg")
        out.append(c)
    # names that run into each other, or differ in little
    for k, gs in enumerate([
            [("d", ["1s", "s"]), ("d1", ["s", "1s"])], [("d", ["11s", "1s"]), ("d1", ["1s", "s"]), ("d11", ["s"])],
            [("d1", ["s1"]), ("D1", ["S1", "s1"])], [("d", ["s", "s ", " s"]), ("d ", ["s"]), (" d", ["s"])],
            [("s", ["d", "s"]), ("d", ["s", "d"])], [("root.sg", ["root.sg"]), ("root", ["sg"])], [("d", ["s", "ss", "sss"])],
            [("a", ["b"]), ("ab", ["ab"]), ("aba", ["b"])], [("é", ["s"]), ("e\u0301", ["s"]), ("e", ["s"])],
            [("1", ["1", "11"]), ("11", ["1", "11"])]]):
        c = SyncCase("alike%d" % k)
        c.schema([(d, [(m, *COMBOS[(j + k) % len(COMBOS)]) for j, m in enumerate(ms)]) for d, ms in gs])
        for sg in [b"root.sg", b"d", b"root"]:
            c.add("mlog", sg)
        out.append(c)
    # encodings and types in every declarable combination
    for k, t in enumerate(ALL_TYPES):
        c = SyncCase("alltypes%d" % k)
        c.schema([("d", [("%s-%s" % (e, p), t, e, p) for e in ["PLAIN", "TS2DIFF"] for p in COMPS])])
        c.add("mlog", b"root.sg")
        out.append(c)
    return out


ALL_TYPES = ["INT32", "INT64", "FLOAT"]

LOCKS = [b"0123456789abcdef0123456789abcdef", b"somebody wrote this", "ä".encode(), b"abc\n", b"F" * 32, b"z" * 4000,
         b"01234567-89ab-cdef-0123-456789abcdef", b"{01234567-89AB-CDEF-0123-456789ABCDEF}", b" 0123456789abcdef0123456789abcdef ",
         b"x", b"0" * 31, b"0" * 33, b"\n", b" ", b"a\r\nb\r\n", b"nul\0inside", b"urn:uuid:01234567-89ab-cdef-0123-456789abcdef",
         b"00000000000000000000000000000000", b"0123456789ABCDEF0123456789ABCDEF"]


def identities(rng, tier):
    out = []
    for k in range(200 if tier == "quick" else 2000):
        c = SyncCase("id%d" % k)
        dirs = ["a", "b", "c"][:rng.choice([1, 1, 2, 3])]
        c.add("dir", dirs[0])
        for _ in range(rng.choice([2, 3, 5, 8])):
            r = rng.random()
            if r < 0.25:
                c.add("dir", rng.choice(dirs))
            elif r < 0.4:
                x = rng.random()
                if x < 0.4:
                    c.add("lock", "file", rng.choice(LOCKS))
                elif x < 0.5:
                    c.add("lock", "none")
                else:
                    # a place where it cannot be stored: made and left again
                    c.add("dir", "odd%d" % len(c.lines))
                    c.add("lock", rng.choice(["dir", "dangling", "gone", "full"]))
                    answers_line(c, [rng.choice(["ok", "refuse"])])
                    connect(c, rng, rng.choice(["listening", "refused"]), uuid=rng.choice([None, None, b"given"]))
                    c.add("dir", rng.choice(dirs))
            answers_line(c, [rng.choice(["ok", "ok", "ok", "refuse", "exception", "close", "garbage"])])
            connect(c, rng, rng.choices(["listening", "refused", "bad"], [8, 1, 1])[0],
                    uuid=rng.choice([None, None, None, b"given", b"", b"0123456789abcdef0123456789abcdef"]))
        c.add("bye")
        out.append(c)
    for k, what in enumerate(["dir", "dangling", "gone", "full"]):
        c = SyncCase("unstorable-" + what)
        c.add("dir", "a").add("lock", what)
        connect(c, rng, "listening", uuid=None)
        if what != "gone":
            # when it can be stored again, an identity is generated and kept
            c.add("lock", "none") if what != "full" else c.add("dir", "a")
            connect(c, rng, "listening", uuid=None)
            connect(c, rng, "listening", uuid=None)
        c.add("bye")
        out.append(c)
    return out


def cases_for(prop, tier, rng, workdir):
    """Returns cases and the statistics of the model they were generated from."""
    q = tier == "quick"
    if prop == "C18":
        return mlogs(rng, tier) + plain_sessions(rng, tier)[:30 if q else 600], {"states": 0, "transitions": 0}
    if prop == "C19":
        return identities(rng, tier), {"states": 0, "transitions": 0}
    ss, stats = scripts(workdir)
    if prop == "C16":
        ss = [s for s in ss if not s["sessions"]]
        return handshakes(rng, tier) + model_cases(rng, ss, None), stats
    return model_cases(rng, ss, 900 if q else None) + plain_sessions(rng, tier), stats


class Schedule:
    def __init__(self, cid, word):
        self.id, self.word = cid, word

    def text(self):
        return "schedule %s (p: process p makes a step, -p: it is stopped)\n%s" % (self.word, race.plan(self.id))


def schedules(rng, tier, workdir):
    """Behaviours of Identity.tla as schedules, after the model has been checked."""
    words, stats = set(), {"states": 0, "transitions": 0}
    for cfg in ["IdentityModel", "IdentitySchedules"]:
        ok, text, s = tlc_check("Identity", cfg, workdir)
        if not ok:
            raise ToolError("the identity model does not check: " + text[-1500:])
        stats["states"] += s["states"]
        stats["transitions"] += s["transitions"]
        for line in text.splitlines():
            m = re.match(r'^"@@(.*)"$', line.strip())
            if m:
                words.add(tuple(json.loads(m.group(1))))
    ok, text, _ = tlc_check("Identity", "IdentityInPlace", workdir)
    if ok or "Invariant NeverPartial is violated" not in text:
        raise ToolError("the identity model does not tell storing in place from storing in one step")
    words = sorted(words)
    if tier == "quick":
        rng.shuffle(words)
        words = words[:400]
    return words, stats


def run_property(prop, tier, seed, workdir, binary):
    rng = random.Random("%s-%d" % (prop, seed))
    scratch = os.path.join(workdir, "scratch")
    os.makedirs(scratch, exist_ok=True)
    cases, model = cases_for(prop, tier, rng, workdir)
    # those in which the receiver waits are run at the same time
    waits = [c for c in cases if re.match("slow|pause", c.id)]
    items = [[(c.id, c.text()) for c in cases if c not in waits]] + [[(c.id, c.text())] for c in waits]
    dirs = [os.path.join(workdir, "scratch%d" % k) for k in range(len(items))]
    for d in dirs:
        os.makedirs(d)
    with ThreadPoolExecutor(len(items)) as ex:
        recs = {k: r for res in ex.map(lambda a: run_harness(binary, "sync", *a), zip(items, dirs)) for k, r in res.items()}
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
    traces = []
    if prop == "C19":
        words, model = schedules(rng, tier, workdir)
        traces, ids, _ = race.run_all(binary, race.build_gate(workdir), scratch, words)
        by_race = [Schedule(k, w) for k, w in ids.items()]
    else:
        by_race = []
    shutil.rmtree(scratch, ignore_errors=True)
    for c in cases:
        r = recs.get(c.id)
        if r is None:
            continue
        r.setdefault("abort", "")
        if r["abort"]:
            r.update(names=[], decl=[], ops=[])
        traces.append(r)
    verdicts, stats = [], dict(model)
    stats["traces_generated_from_model"] = sum(1 for c in cases + by_race if c.id.startswith(("model", "race")))
    size, part, parts = 0, [], []
    for t in traces:
        part.append(t)
        size += len(json.dumps(t))
        if size > 60_000_000:
            parts.append(part)
            part, size = [], 0
    for p in parts + ([part] if part else []):
        v, s = tlc_trace("SyncTrace", p, prop, workdir)
        verdicts += v
        stats["states"] += s["states"]
        stats["transitions"] += s["states_generated"]
    return traces, verdicts, stats, {c.id: c for c in cases + by_race}
