"""Checks decided by validating executions of the writer against Trace.tla."""
import json, os, random
from common import *
import families as F
import capi, model
from plans import Case


def prepare(c, rec, twins):
    rec = dict(rec)
    if rec.get("abort"):
        rec.update(names=[list(n) for n in c.names], decl=[], limits={}, degree=c.degree, ev=[], file=[])
    rec.setdefault("abort", "")
    rec["twins"] = twins
    rec.setdefault("disk", [])
    rec["base"] = [(c.start >> k) & 65535 for k in (48, 32, 16, 0)]
    rec["uniform"] = c.uniform
    rec["unwritable"] = c.unwritable
    rec["limited"] = bool(c.limits)
    rec["misbehave"] = c.sink if c.sink.startswith(("fault", "full")) else "no"
    for k in ("calls", "flushes", "sink"):
        rec.pop(k, None)
    return rec


def outlined(c, rec):
    """Of the calls only their results, and of each series the number of points, the first and the last."""
    series = {}
    for e in rec["ev"]:
        if e["e"] in ("w", "run") and e["r"] == "ok":
            s = series.setdefault((e["d"], e["m"]), {"d": e["d"], "m": e["m"], "n": 0, "first": e["pts"][0]})
            s["n"] += len(e["pts"])
            s["last"] = e["pts"][-1]
    return {"id": rec["id"], "abort": rec["abort"], "base": rec["base"], "names": rec["names"], "degree": rec["degree"], "file": rec["file"],
            "ev": [], "results": [e["r"] for e in rec["ev"]], "series": list(series.values())}


def cases_for(prop, tier, rng, workdir, run):
    q = tier == "quick"
    n = lambda a, b: a if q else b
    H = lambda k, **kw: list(F.histories(rng, k, **kw))
    L = list
    if prop == "C01":
        return (H(n(250, 2500)) + L(F.encodings(rng, tier)) + L(F.device_names(rng, tier)) + L(F.limits_grid(rng, tier))
                + L(F.real_limits(rng, tier)) + L(F.on_disk(rng, n(20, 120), workdir)) + H(n(10, 60), prefix="long", steps=400)
                + L(F.small_index(rng, tier)) + L(F.big_index(rng, "quick"))[:3] + L(F.many_pages(rng, tier)) + L(F.many_chunks(rng, tier))
                + L(F.many_points(rng, tier)) + L(F.long_batches(rng, "quick"))[-3:])
    if prop == "C02":
        return (H(n(400, 4000), refusals=0.45) + H(n(100, 1000), prefix="s", refusals=0.6, max_devices=1, max_series=1)
                + L(F.batches(rng, n(60, 600))) + L(F.encodings(rng, "quick", lens=[2, 3, 4]))
                + L(F.long_batches(rng, tier, upto=300)))
    if prop == "C03":
        cs = H(n(300, 3000), refusals=0.5) + L(F.unavailable(rng, n(60, 600))) + L(F.batches(rng, n(60, 500))) + L(F.long_refusals(rng, tier))
        for c in cs:
            c.twins = ["unrefused"]
        return cs
    if prop == "C04":
        return (H(n(250, 2500)) + L(F.device_names(rng, tier)) + L(F.limits_grid(rng, tier)) + L(F.real_limits(rng, tier))
                + L(F.small_index(rng, tier)) + L(F.encodings(rng, "quick")) + far(rng, n(10, 100)) + L(F.many_pages(rng, tier))
                + L(F.big_pages(rng, tier)) + L(F.outline(rng, tier, run)))
    if prop == "C05":
        return (L(F.small_index(rng, tier)) + L(F.big_index(rng, tier)) + L(F.device_names(rng, tier)) + H(n(150, 1500))
                + [F.random_history(random.Random(rng.getrandbits(30)), "deg%d" % k, steps=80, max_devices=6, max_series=6) for k in range(0)]
                + degrees(rng, n(80, 800)) + far(rng, n(25, 250)) + L(F.many_chunks(rng, tier)) + ([] if q else L(F.outline(rng, tier, run))))
    if prop == "C06":
        return (L(F.encodings(rng, tier)) + H(n(200, 2000)) + L(F.limits_grid(rng, tier)) + L(F.real_limits(rng, tier))
                + H(n(60, 500), prefix="p", steps=150, refusals=0.05, max_devices=1, max_series=2)
                + L(F.many_pages(rng, tier))[-2:] + L(F.many_chunks(rng, tier))[-2:] + L(F.many_points(rng, tier))
                + ([] if q else L(F.outline(rng, tier, run))))
    if prop == "C07":
        return L(F.bloom(rng, tier)) + L(F.device_names(rng, tier, wide=False)) + H(n(60, 600), ascii_only=True) + L(F.big_index(rng, tier))[:n(2, 9)]
    if prop == "C08":
        return L(F.encodings(rng, tier)) + L(F.encodings(rng, "thorough" if not q else "quick", prefix="enc2", lens=[5, 17, 33, 65, 131, 259])) + \
            L(F.lengths(rng, tier)) + L(F.widths(rng, tier)) + L(F.real_limits(rng, tier)) + L(F.big_pages(rng, tier)) + L(F.huge_pages(rng, tier)) + H(n(80, 800))
    if prop == "C09":
        return (L(F.limits_grid(rng, tier)) + L(F.uniform(rng, tier)) + L(F.real_limits(rng, tier)) + H(n(150, 1500)))
    if prop == "C10":
        return L(F.batches(rng, n(400, 4000))) + L(F.long_batches(rng, tier)) + [c for c in H(n(100, 1000), batches=0.6)]
    if prop == "C11":
        return (L(F.after_close(rng, n(200, 2000))) + L(F.on_disk(rng, n(60, 400), workdir, after_close=1.0, close=1.0))
                + L(F.small_index(rng, "quick"))[-4:])
    if prop == "C12":
        return (L(F.on_disk(rng, n(60, 400), workdir)) + L(F.on_disk(rng, n(30, 200), workdir, prefix="dropped", close=0.0))
                + L(F.on_disk(rng, n(15, 100), workdir, prefix="many", max_devices=8)) + L(F.on_disk(rng, n(15, 100), workdir, prefix="manydropped", close=0.0, max_devices=8))
                + L(F.abandoned(rng, n(80, 800))) + H(n(100, 1000), steps=25) + L(F.small_index(rng, "quick")))
    if prop == "C13":
        return L(F.fault_cases(rng, tier, run)) + L(F.full_disk(rng, tier, run, workdir)) + L(F.unwritable(rng, workdir))
    if prop == "C14":
        return L(F.determinism(rng, n(120, 1200)))
    if prop == "C15":
        return L(F.declarations(rng, n(250, 2500))) + H(n(120, 1200)) + L(F.encodings(rng, "quick", lens=[2, 5]))
    if prop == "C20":
        return capi.run_scenarios(rng, tier, workdir)
    raise KeyError(prop)


def far(rng, k):
    """Files, as they would be if they began so far behind: offsets of more than 31 and 32 bits."""
    out = []
    for i in range(k):
        for start in ((1 << 31) - 400, (1 << 32) - 400, 0x0123456789abcd00):
            c = F.random_history(rng, "far%d-%x" % (i, start), steps=80, max_devices=6, max_series=5, refusals=0.05)
            c.degree = rng.choice([2, 3, 4, 256])
            c.start = start
            out.append(c)
    return out


def degrees(rng, k):
    out = []
    for i in range(k):
        c = F.random_history(rng, "deg%d" % i, steps=120, max_devices=8, max_series=8, refusals=0.05)
        c.degree = rng.choice([2, 3, 4, 5])
        out.append(c)
    return out


def run_property(prop, tier, seed, workdir, binary, extra=()):
    """Returns (traces, verdicts, stats, plans by id)."""
    rng = random.Random("%s-%d" % (prop, seed))
    scratch = os.path.join(workdir, "scratch")
    os.makedirs(scratch, exist_ok=True)

    def run(cs):
        return run_harness(binary, "writer", [(c.id, c.text()) for c in cs], scratch)

    behaviours, modelled = model.cases(prop, tier, random.Random("model-%s-%d" % (prop, seed)), workdir)
    if prop == "C03":
        for c in behaviours:
            c.twins = ["unrefused"]
    big = list(F.large(rng, tier, F.LARGE.get(prop, []) + (F.LARGER.get(prop, []) if tier != "quick" else [])))
    cases = cases_for(prop, tier, rng, scratch, run) + big + behaviours + list(extra)
    recs = taped(cases, binary, workdir, scratch) if prop == "C12" else run(cases)
    twin_items = {}
    for c in cases:
        for kind, cid, text in c.twin_items(rng):
            twin_items.setdefault(c.id, []).append((kind, cid, text))
    twins = {}
    for mode in ("writer", "elsewhere", "threads", "interleaved"):
        flat = [(cid, text) for ts in twin_items.values() for kind, cid, text in ts
                if mode == (kind if kind in ("threads", "interleaved", "elsewhere") else "writer")]
        if not flat:
            continue
        if mode == "elsewhere":
            # another place, time, language, user and number of the process
            away = os.path.join(scratch, "away", "x" * 40)
            os.makedirs(away)
            env = {"LD_PRELOAD": build_shim("clock", os.path.join(workdir, "clock.so")), "TZ": "Asia/Kathmandu", "LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8",
                   "HOME": "/nowhere", "USER": "somebody", "HOSTNAME": "other", "PWD": away, "TMPDIR": away, "RUST_LOG": "trace", "RUST_BACKTRACE": "1"}
            twins.update(run_harness(binary, "writer", flat, away, env=env))
        else:
            twins.update(run_harness(binary, mode, flat, scratch))
    traces = []
    for c in cases:
        if c.id not in recs:
            continue
        ts = []
        for kind, cid, _ in twin_items.get(c.id, []):
            t = twins.get(cid)
            if t is None:
                continue
            ts.append({"kind": kind, "file": t.get("file", []), "ev": t.get("ev", []) if kind != "unrefused" else []})
        rec = prepare(c, recs[c.id], ts)
        if prop == "C20":
            rec["twins"].append({"kind": "capi", "file": list(c.cfile), "ev": []})
            rec["abort"] = rec["abort"] or c.cabort
        traces.append(outlined(c, rec) if c.outline else rec)
    shutil.rmtree(scratch, ignore_errors=True)
    verdicts, stats = [], {"states": 0, "states_generated": 0}
    if behaviours:
        compared = [model.drift(c, recs[c.id]) for c in behaviours if c.id in recs]
        modelled.update(calls_predicted=sum(n for n, _ in compared), calls_unlike_predicted=sum(b for _, b in compared))
        stats["extra"] = modelled
    budget = 30_000_000
    part, size = [], 0
    parts = []
    traces.sort(key=lambda t: t["base"])
    larger, outlines = {c.id for c in big}, {c.id for c in cases if c.outline}
    for module, ids in (("Large", larger), ("Outline", outlines)):
        if not ids:
            continue
        v, s = tlc_trace(module, [t for t in traces if t["id"] in ids], prop, workdir)
        verdicts += v
        for k in s:
            stats[k] = stats.get(k, 0) + s[k]
    for t in traces:
        if t["id"] in larger | outlines:
            continue
        s = len(t["file"]) * 3 + sum(len(e.get("pts", ())) for e in t["ev"]) * 40 + 2000
        if part and (size + s > budget or part[0]["base"] != t["base"]):
            parts.append(part)
            part, size = [], 0
        part.append(t)
        size += s
    if part:
        parts.append(part)
    for p in parts:
        v, s = tlc_trace("Trace", p, prop, workdir)
        verdicts += v
        for k in s:
            stats[k] = stats.get(k, 0) + s[k]
    plans = {c.id: c for c in cases}
    if prop == "C09":
        runs = bulk(tier)
        recs = run_harness(binary, "bulk", runs, workdir)
        more = []
        for cid, text in runs:
            r = recs.get(cid)
            if r is None:
                continue
            if r.get("abort"):
                r.update(grown=[], r="ok", len=7, points=0)
            r.setdefault("abort", "")
            more.append(r)
            traces.append(dict(r, file=[], ev=[]))
            plans[cid] = Plain(text)
        v, s = tlc_trace("Buffered", more, prop, workdir)
        verdicts += v
        for k in s:
            stats[k] = stats.get(k, 0) + s[k]
    if prop == "C15":
        rec = run_harness(binary, "codes", [("codes", "")], workdir)["codes"]
        rec.setdefault("abort", "")
        v, s = tlc_trace("Codes", [rec], prop, workdir)
        verdicts += v
        traces.append(dict(rec, file=[], ev=[]))
        plans["codes"] = CodesCase()
        for k in s:
            stats[k] = stats.get(k, 0) + s[k]
    return traces, verdicts, stats, plans


def taped(cases, binary, workdir, scratch):
    """Runs the cases with every change of a file recorded."""
    so, log_ = os.path.join(workdir, "tape.so"), os.path.join(workdir, "tape.log")
    build_shim("tape", so)
    if os.path.exists(log_):
        os.remove(log_)
    recs = run_harness(binary, "writer", [(c.id, c.text()) for c in cases], scratch,
                       env={"LD_PRELOAD": so, "TAPE_DIR": os.path.realpath(scratch), "TAPE_LOG": log_})
    of = {}
    for c in cases:
        if c.sink.startswith("file ") and c.id in recs and "disk" not in recs[c.id]:
            recs[c.id]["disk"] = []
            of[os.path.realpath(os.path.join(scratch, unhex(c.sink[5:])))] = recs[c.id]["disk"]
    side = {}
    for line in open(log_) if os.path.exists(log_) else []:
        w = line.split()
        e = {"k": w[0], "p": 1, "q": 0, "o": 0, "n": 0, "b": []}
        if w[0] in ("open", "size"):
            e["n"] = int(w[2])
        elif w[0] == "write":
            e["o"], e["b"] = int(w[2]), list(bytes.fromhex(w[3]))
        if w[0] == "move":
            # the calls on the other file are part of this one's history
            dst, calls = of.get(w[2]), side.get(w[1], [])
            if dst is not None:
                dst += [dict(x, p=2) for x in calls]
                dst.append(dict(e, q=2))
            elif w[1] in of:
                of[w[1]].append(dict(e, k="gone"))
        elif w[1] in of:
            of[w[1]].append(e)
        else:
            side.setdefault(w[1], []).append(e)
    return recs


def unhex(s):
    return "" if s == "-" else bytes.fromhex(s).decode()


class Plain:
    def __init__(self, text):
        self.t = text

    def text(self):
        return self.t


def bulk(tier):
    """Series and points written under the built-in limits (more than 128 MiB of them)."""
    rows = [(1, 16000000, "INT64", "PLAIN"), (40, 14500000, "INT64", "PLAIN"), (2, 19000000, "FLOAT", "PLAIN")]
    if tier != "quick":
        rows += [(3, 40000000, "INT32", "PLAIN"), (3, 40000000, "INT32", "TS2DIFF"), (1, 30000000, "INT64", "TS2DIFF"),
                 (700, 40000000, "FLOAT", "PLAIN"), (1000, 30000000, "INT64", "PLAIN")]
    return [("bulk-%d-%s-%s" % (r[0], r[2], r[3]),
             "bulk bulk-%d-%s-%s %d %d %s %s UNCOMPRESSED" % (r[0], r[2], r[3], r[0], r[1], r[2], r[3])) for r in rows]


class CodesCase:
    def text(self):
        return "every code from 0 to 255, to types, encodings and compressions and back"
