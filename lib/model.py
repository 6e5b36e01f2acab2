"""Behaviours of the model of the writer (Writer.tla): checked by TLC, and
turned into plans that make the real writer take the same calls."""
import json, os, re
from common import *
from plans import Case, I64MAX

TYPE_OF = {"INT32": "INT32", "INT64": "INT64", "FLOAT": "FLOAT"}
LIMITS = [("maxPoints", "max_points_in_page"), ("firstPage", "first_page_check"), ("minPage", "min_page_check"),
          ("pageSize", "page_size"), ("firstMem", "first_mem_check"), ("group", "group_size")]
BIG = 1000000


def explore(profile, depth, workdir, workers=4):
    """Model checks one profile; returns (parameters, words, statistics)."""
    name = "Writer-%s-%d" % (profile, depth)
    cfg = os.path.join(workdir, name + ".cfg")
    with open(os.path.join(SPEC, "WriterModel.cfg")) as f:
        text = f.read().replace("PROFILE", profile).replace("DEPTH", str(depth))
    with open(cfg, "w") as f:
        f.write(text)
    ok, text, stats = tlc_check("Writer", cfg[:-4], workdir, workers=workers)
    if not ok:
        raise ToolError("the model of the writer is violated (%s): %s" % (profile, text[-1500:]))
    params, words = None, []
    for line in text.splitlines():
        m = re.match(r'^"@(P|@)(.*)"$', line.strip())
        if m:
            v = json.loads(json.loads('"' + m.group(2) + '"'))
            if m.group(1) == "P":
                params = v
            else:
                words.append((v["cap"], tuple(json.dumps(x) for x in v["calls"])))
    words = set(words)
    inner = {(cap, w[:k]) for cap, w in words for k in range(1, len(w))}
    words = sorted(words - inner)
    return params, [(cap, [json.loads(x) for x in w]) for cap, w in words], stats


def bits(params, s, t, right):
    ty = params["series"][s - 1]["type"] if s > 0 else "INT32"
    v = (7 * t + 3 * s) % 60 if t >= 0 else 1
    if not right:
        ty = {"INT32": "INT64", "INT64": "FLOAT", "FLOAT": "INT32"}[ty]
    if ty == "FLOAT":
        import struct
        return ty, struct.unpack(">I", struct.pack(">f", float(v)))[0]
    return ty, v


def case_of(params, cid, cap, calls, comp="UNCOMPRESSED", base=0):
    """The calls of a word; times are moved by base (their differences stay), compression is up to the caller."""
    c = Case(cid)
    by = {}
    for s in params["series"]:
        by.setdefault(s["d"], []).append((s["m"], s["type"], s["encoding"], comp))
    for d, ms in by.items():
        c.group(d, ms)
    c.limits = {b: params[a] for a, b in LIMITS if params[a] != BIG}
    if cap != BIG:
        c.sink = "fault failb=%d" % cap
    ser = params["series"]
    name = lambda s: ser[s - 1]["m"] if s > 0 else "nomeasurement"
    top = max([x[0][2] for x in calls if x[0][0] in "wb"] + [0])
    base = {"end": I64MAX - top - 1}.get(base, base)
    at = lambda t: t if t < 0 else base + t
    for call, _, _ in calls:
        if call[0] == "w":
            _, s, t, right = call
            d = ser[s - 1]["d"] if s > 0 else ser[0]["d"] if s == 0 else "nodevice"
            c.w(d, name(s), at(t), *bits(params, s, t, right))
        elif call[0] == "b":
            c.b(call[1], at(call[2]), [(name(s), *bits(params, s, call[2], r)) for s, r in call[3]])
        else:
            c.close()
    # whatever state this is, the file can be finished, and then nothing happens to it any more
    if not calls or calls[-1][0][0] != "close":
        c.close()
    c.w(ser[0]["d"], ser[0]["m"], base + top + 1, *bits(params, 1, top + 1, True))
    c.close()
    c.drop()
    c.predicted = [(r, n, call[0] == "close") for call, r, n in calls] if comp == "UNCOMPRESSED" else None
    return c


PROFILES = {"C01": ["pages", "adaptive", "groups"], "C02": ["pages", "always"], "C03": ["batches", "always"],
            "C04": ["pages", "groups"], "C05": ["groups"], "C06": ["adaptive", "pages"], "C09": ["adaptive", "groups", "always"],
            "C10": ["batches", "always"], "C11": ["groups", "always"], "C12": ["groups", "batches"], "C13": ["faults"]}


def cases(prop, tier, rng, workdir):
    """Behaviours of the model for a property, and what TLC explored."""
    out, stats = [], {"model_states": 0, "model_transitions": 0, "model_behaviours": 0, "model_profiles": {}}
    depth, most = (3, 2000) if tier == "quick" else (4, 12000)
    for profile in PROFILES.get(prop, []):
        deep = depth + (profile in ("pages", "adaptive", "groups"))
        params, words, s = explore(profile, deep, workdir)
        stats["model_states"] += s["states"]
        stats["model_transitions"] += s["transitions"]
        stats["model_behaviours"] += len(words)
        some = words if len(words) <= most else rng.sample(words, most)
        stats["model_profiles"][profile] = {"depth": deep, "states": s["states"], "behaviours": len(words), "run": len(some)}
        for k, (cap, calls) in enumerate(some):
            comp = "SNAPPY" if rng.random() < 0.2 else "UNCOMPRESSED"
            base = rng.choice([0, 0, 1650000000000, "end"])
            out.append(case_of(params, "model-%s-%d" % (profile, k), cap, calls, comp, base))
    return out, stats


def drift(c, rec):
    """(calls compared, calls on which the code did something else than the
    model predicts).  The size of the metadata is not modelled, so lengths
    after a close are not compared, nor closes under a fault."""
    if getattr(c, "predicted", None) is None or rec.get("abort"):
        return 0, 0
    got = []
    for e in rec["ev"]:
        if e["e"] == "run":
            got += [("ok", None)] * (len(e["pts"]) - 1) + [("ok", e["len"])]
        elif e["e"] != "new":
            got.append((e["r"], e["len"]))
    n = bad = 0
    ended = False
    for (r, l), (pr, pl, close) in zip(got, c.predicted):
        ended = ended or close
        if ended and c.sink != "mem":
            break
        n += 1
        bad += r != pr or (l is not None and not ended and l != pl)
    return n, bad
