import json, os, time
from common import *
import writer_checks, sync_checks, pyapi, proofs

SYNC = {"C16", "C17", "C18", "C19"}


def load_known():
    """Known findings: lines `property=<id> finding="<text>" <description>`; `fixed:` lines suppress nothing."""
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"property=(\S+) finding=\"([^\"]*)\" (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def coverage(prop, traces, verdicts, stats, cases):
    total = lambda k: sum(v.get(k, 0) for v in verdicts)
    c = {"states": stats["states"], "transitions": stats.get("states_generated", stats.get("transitions", 0)),
         "traces_validated_against_impl": len(verdicts), "events": total("events"),
         "samples": [{"id": t["id"], "plan": cases[t["id"]].text()[:600].split("\n")} for t in traces[:2] + traces[-1:]]}
    if prop in SYNC:
        c.update({k: total(k) for k in ("senders", "refused", "sessions", "failed")})
        c["traces_generated_from_model"] = stats["traces_generated_from_model"]
    else:
        c.update(traces_with_data_in_the_file=sum(1 for v in verdicts if v["points"] > 0 and v["chunks"] > 0),
                 points_accepted=total("points"), chunks_read_back=total("chunks"),
                 bytes_read_by_the_specification=sum(len(t["file"]) for t in traces))
    if prop == "C13":
        hit = {cases[t["id"]].text() for t in traces
               if any(e.get("faulted") for e in t["ev"]) or t["misbehave"] != "no" or t["unwritable"] != "no"}
        c.update(evaluations=len(traces), distinct_nontrivial=len(hit),
                 rule="every write and flush call of small histories made to fail, be short or be interrupted, one at a time and all; "
                      "non-trivial: the fault was met (or the sink misbehaves throughout)")
    c.update(stats.get("extra", {}))
    return c


def main(prop, tier, seed):
    t0 = time.time()
    workdir = out_dir(prop)
    binary = build_harness()
    t1 = time.time()
    checks = sync_checks if prop in SYNC else pyapi if prop == "C21" else writer_checks
    traces, verdicts, stats, cases = checks.run_property(prop, tier, seed, workdir, binary)
    if tier != "quick":
        stats.setdefault("extra", {})["proved_of_the_specification"] = proofs.of_property(prop, workdir)
    known = load_known()
    hits, seen_known = [], set()
    by_id = {t["id"]: t for t in traces}
    for v in verdicts:
        t = by_id[v["id"]]
        mine = [b[1] for b in v["bad"] if b[0] == prop]
        new = []
        for what in mine:
            k = next((k for k in known if k[0] == prop and k[1] == what), None)
            if k:
                seen_known.add(k)
            else:
                new.append(what)
        if new:
            hits.append((t, new))
    for k in sorted(seen_known):
        log("KNOWN-FINDING: property=%s %s (%s)" % (prop, k[1], k[2]))
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": level_of(prop),
                "coverage": coverage(prop, traces, verdicts, stats, cases),
                "violations": len(hits), "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    log("%s: %d traces, %d events, %d states; build %.0f s, total %.0f s" %
        (prop, len(verdicts), evidence["coverage"]["events"], stats["states"], t1 - t0, time.time() - t0))
    if hits:
        t, what = hits[0]
        replay = os.path.join(workdir, "violation.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "findings": what, "plan": cases[t["id"]].text().split("\n"),
                       "others": [[u["id"], w] for u, w in hits[1:50]], "trace": t}, f)
        log("%d of %d traces violate %s, first: %s: %s" % (len(hits), len(verdicts), prop, t["id"], "; ".join(what[:4])))
        log("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def level_of(prop):
    from checks_table import TABLE
    return next(r[2] for r in TABLE if r[0] == prop)
