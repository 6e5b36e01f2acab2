#!/usr/bin/env python3
"""The properties checked on the models are not vacuous: each of these changes of a model violates one.
usage: vacuity.py   (prints what is violated; exit 1 if a change is not noticed)"""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
from common import *

W = lambda profile, depth=3: ("Writer", "WriterModel", {"PROFILE": profile, "DEPTH": str(depth)})
M = lambda cfg: (cfg[0], cfg[1], {})
SYNC, IDM = ("Sync", "SyncModel", {}), ("Identity", "IdentityModel", {})
MUTANTS = [
    ("last times are forgotten at a flush", W("always"), '''last' = IF it.k = "reset" THEN kept' ELSE last''', '''last' = IF it.k = "reset" THEN [s \\in Ser |-> -1] ELSE last'''),
    ("points before a refused one of a batch are not counted", W("batches"), "count' = x.count", "count' = (IF x.r = \"ok\" THEN x.count ELSE count)"),
    ("a batch goes on after a refused point", W("batches"), 'IF x.r # "ok" THEN x\n', 'IF x.r = "never" THEN x\n'),
    ("a failed write does not count", W("faults"), "failed' = TRUE", "failed' = FALSE"),
    ("a second close writes again", W("pages"), "queue' = IF closed \\/ failed THEN <<>>", "queue' = IF failed THEN <<>>"),
    ("close does not flush", W("pages"), "(IF count > 0 THEN Flush(ser) ELSE <<>>)", "<<>>"),
    ("a flush leaves the open page out", W("groups"), "IF ser1[s].page = <<>> THEN ser1[s] ELSE Seal(ser1[s])", "ser1[s]"),
    ("pages are not sealed", W("groups", 4), "IF k > P.maxPoints THEN Seal(y)", "IF k > P.maxPoints THEN y"),
    ("an equal timestamp is accepted", W("pages"), "t <= x.last[s]", "t < x.last[s]"),
    ("the order is not checked for the first point", W("pages"), "t <= x.last[s]", "x.last[s] >= 0 /\\ t <= x.last[s]"),
    ("the type is not checked", W("batches"), 'IF ~right THEN "WrongTypeForSeries"', 'IF FALSE THEN "WrongTypeForSeries"'),
    ("a write after close is taken", W("pages"), "IF failed \\/ closed \\/ ~known", "IF failed \\/ ~known"),
    ("a chunk reaches the file twice", W("always"), "[k |-> \"chunk\", s |-> q[k], pages |-> sealed[q[k]].pages]", "[k |-> \"chunk\", s |-> q[1], pages |-> sealed[q[1]].pages]"),
    ("the buffers are not emptied by a flush", W("groups"), "ser' = IF it.k = \"reset\" THEN [s \\in Ser |-> Fresh(s)] ELSE ser", "ser' = ser"),
    ("close after a failure succeeds", W("faults"), 'IF closed THEN "ok" ELSE IF failed THEN "IllegalState" ELSE "ok"', '"ok"'),
    ("the handshake's answer is ignored", SYNC, 'phase\' = IF a \\in Accepting THEN "ready" ELSE "over"', 'phase\' = "ready"'),
    ("a refused step is passed over", SYNC, "ELSE failed' = TRUE /\\ UNCHANGED step\n", "ELSE UNCHANGED << failed, step >>\n"),
    ("success is reported after a failure", SYNC, 'IF failed THEN "err" ELSE "ok", steps', '"ok", steps'),
    ("the end is sent after a refusal", SYNC, "Ask == /\\ phase = \"session\" /\\ ~failed /\\ alive", "Ask == /\\ phase = \"session\" /\\ alive"),
    ("the identity is written in place", IDM, None, ('"linked"', '"inplace"')),
    ("a link replaces what is stored", IDM, "IF lock = None THEN lock' = own[p] /\\ id' = [id EXCEPT ![p] = own[p]] ELSE Keep(<< lock, id >>)", "lock' = own[p] /\\ id' = [id EXCEPT ![p] = own[p]]"),
    ("the loser of the race presents its own", IDM, "ELSE Keep(<< lock, id >>)\n           /\\ Go(p, \"unlink\")", "ELSE id' = [id EXCEPT ![p] = own[p]] /\\ Keep(lock)\n           /\\ Go(p, \"unlink\")"),
]

bad = 0
work = "/tmp/vacuity"
for what, (module, cfg, sub), old, new in MUTANTS:
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(common.SPEC, work)
    c = open("%s/%s.cfg" % (work, cfg)).read()
    for k, v in sub.items():
        c = c.replace(k, v)
    c = c.replace("ACTION_CONSTRAINT Emit\n", "")
    if old is None:
        assert new[0] in c
        c = c.replace(*new)
    else:
        t = open("%s/%s.tla" % (work, module)).read()
        assert t.count(old) == 1, (what, t.count(old))
        open("%s/%s.tla" % (work, module), "w").write(t.replace(old, new))
    open("%s/%s.cfg" % (work, cfg), "w").write(c)
    p = common.java(["tlc2.TLC", "-workers", "4", "-metadir", work + "/states", "-noGenerateSpecTE", "-config", cfg + ".cfg", module + ".tla"], cwd=work)
    text = p.stdout.decode(errors="replace")
    hit = re.findall(r"Error: (.*(?:violated|not as the contract).*)|(\"not as the contract says\")|(is stuttering|Temporal properties were violated)", text)
    hit = ["".join(h) for h in hit]
    errs = [l for l in text.splitlines() if l.startswith("Error:")]
    print("%-55s %s" % (what, (hit or errs or ["NOT NOTICED"])[0][:90]), flush=True)
    bad += not (hit or errs)
shutil.rmtree(work, ignore_errors=True)
sys.exit(bad > 0)
