#!/usr/bin/env python3
"""Checks the proofs, and that they are not vacuous: each of these changes of a specification makes one fail.
usage: prove.py"""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import SPEC
from proofs import PROOFS, prove

CHANGED = [
    ("SeriesLogProof", "SeriesLog", "dur' = [dur EXCEPT ![s] = Len(acc[s])]", "dur' = [dur EXCEPT ![s] = Len(acc[s]) + 1]"),
    ("SeriesLogProof", "SeriesLog", "(k = 1 \\/ b[k-1] < b[k])", "(k = 1 \\/ b[k-1] <= b[k])"),
    ("SeriesLogProof", "SeriesLog", "Close == /\\ status = \"open\" /\\ \\A s \\in Series : dur[s] = Len(acc[s])", "Close == /\\ status = \"open\""),
    ("SeriesLogProof", "SeriesLog", "Fail == status = \"open\" /\\", "Fail =="),
    ("SyncProof", "Sync", "IF failed THEN \"err\" ELSE \"ok\", steps", "\"ok\", steps"),
    ("SyncProof", "Sync", "Ask == /\\ phase = \"session\" /\\ ~failed /\\ alive", "Ask == /\\ phase = \"session\" /\\ alive"),
    ("SyncProof", "Sync", "phase' = IF a \\in Accepting THEN \"ready\" ELSE \"over\"", "phase' = \"ready\""),
    ("SyncProof", "Sync", "/\\ Advance(step, s) > BeforeFile => Readable(file)", "/\\ TRUE"),
    ("IdentityProof", "Identity", "IF lock = None THEN lock' = own[p] /\\ id' = [id EXCEPT ![p] = own[p]] ELSE Keep(<< lock, id >>)", "lock' = own[p] /\\ id' = [id EXCEPT ![p] = own[p]]"),
    ("IdentityProof", "Identity", "ELSE IF id[p] # None THEN \"present\" ELSE \"reopen\"", "ELSE \"present\""),
    ("IdentityProof", "Identity", "/\\ full' = full + 1", "/\\ full' = full"),
    ("HandlesProof", "Handles", "holds' = [holds EXCEPT ![x] = Careless]", "holds' = [holds EXCEPT ![x] = TRUE]"),
    ("HandlesProof", "Handles", "lib' = [lib EXCEPT ![x] = \"gone\"]", "lib' = lib"),
]
bad = 0
work = "/tmp/prove"
shutil.rmtree(work, ignore_errors=True)
for m in PROOFS:
    n, ok, text = prove(m, work)
    print("%-16s %s" % (m, "%d obligations proved" % n if ok else "NOT PROVED"), flush=True)
    bad += not ok
for proof, module, old, new in CHANGED:
    d = work + "/spec"
    shutil.copytree(SPEC, d)
    t = open("%s/%s.tla" % (d, module)).read()
    assert t.count(old) == 1, (old, t.count(old))
    open("%s/%s.tla" % (d, module), "w").write(t.replace(old, new))
    n, ok, text = prove(proof, work, d, 1)
    print("%-16s %-60s %s" % (proof, new[:60], "STILL PROVED" if ok else "fails, as it has to" if "obligations failed" in text else "??? " + text[-300:]), flush=True)
    bad += ok or "obligations failed" not in text
    shutil.rmtree(d)
shutil.rmtree(work, ignore_errors=True)
sys.exit(bad > 0)
