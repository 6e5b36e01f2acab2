"""Senders of one directory, run step by step in the order a schedule of
Identity.tla says, and stopped where it says."""
import json, os, select, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *


def build_gate(workdir):
    return build_shim("gate", os.path.join(workdir, "gate.so"))


class Sender:
    """One process; after every step it is either waiting at the gate or over."""

    def __init__(self, binary, gate, base, plan):
        self.steps = 0
        self.calls = 0
        self.killed = False
        gin, self.go = os.pipe()
        self.at, gout = os.pipe()
        env = dict(os.environ, LD_PRELOAD=gate, GATE_IN=str(gin), GATE_OUT=str(gout))
        self.p = subprocess.Popen([binary, "sync"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=base, env=env, pass_fds=(gin, gout))
        os.close(gin)
        os.close(gout)
        self.p.stdin.write(plan.encode())
        self.p.stdin.close()
        self.over = False
        self.wait()

    def wait(self):
        r, _, _ = select.select([self.at], [], [], 30)
        if not r:
            # neither its next step nor an end
            self.p.kill()
            self.over = True
        elif os.read(self.at, 1) == b"":
            self.over = True
        else:
            self.calls += 1

    def step(self):
        if not self.over:
            os.write(self.go, b"g")
            self.steps += 1
            self.wait()

    def stop(self):
        """Stops it at the gate, before its next call."""
        if not self.over:
            self.p.kill()
            self.killed = True
            self.wait()

    def finish(self):
        while not self.over:
            self.step()
            if self.steps > 1000:
                self.p.kill()
                self.over = True
        out = self.p.stdout.read().decode(errors="replace")
        self.p.wait()
        self.p.stdout.close()
        os.close(self.go)
        os.close(self.at)
        for line in out.split("\n"):
            if line.startswith('{"id"'):
                return json.loads(line)
        return None


def plan(cid):
    return "case %s\ndir d\nconnect 31302e302e302e31 none listening\nend\n" % cid


def presented(rec):
    """The identity in the handshake, in hexadecimal, as the receiver read it; SyncTrace reads the bytes."""
    for o in rec["ops"]:
        if o["op"] == "connect" and o["frames"]:
            return o["frames"][0]["b"]
    return None


def run_schedule(binary, gate, base, cid, word):
    """word: p makes a step; -p is stopped."""
    procs = {p: None for p in sorted({abs(x) for x in word})}
    for p in procs:
        procs[p] = Sender(binary, gate, base, plan(cid))
    for x in word:
        procs[abs(x)].step() if x > 0 else procs[abs(x)].stop()
    recs = [s.finish() for s in procs.values()]
    calls = {p: s.calls for p, s in procs.items()}
    # a later sender, alone
    late = subprocess.run([binary, "sync"], input=plan(cid).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=base)
    rec = next((json.loads(l) for l in late.stdout.decode(errors="replace").split("\n") if l.startswith('{"id"')), None)
    ops = []
    lost = 0
    for s, r in list(zip(procs.values(), recs)) + [(None, rec)]:
        if r is None:
            if s is None or not s.killed:
                lost += 1
            continue
        ops += [dict(o) for o in r["ops"] if o["op"] == "connect"]
    after = ops[-1]["after"] if ops else {"k": "other", "b": []}
    return {"id": cid, "names": [], "decl": [], "abort": "",
            "ops": [{"op": "race", "r": "", "kind": "stopped" if any(x < 0 for x in word) else "at once",
                     "handshakes": [f["b"] for o in ops for f in o["frames"]],
                     "failed": lost + sum(o["r"] != "ok" for o in ops), "after": after}]}, calls


def run_all(binary, gate, workdir, words):
    """Returns traces by id, and by id what was run."""
    base = os.path.join(workdir, "race")
    os.makedirs(base, exist_ok=True)
    todo = [("race%d" % k, w) for k, w in enumerate(words)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: run_schedule(binary, gate, base, *t), todo))
    return [r for r, _ in res], {cid: w for cid, w in todo}, [c for _, c in res]
