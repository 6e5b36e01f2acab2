"""C21: the Python classes over the C library."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from families import *
from plans import *
from capi import ENC, COMP, NAMES

TYPES = {"INT32": 1, "INT64": 2, "FLOAT": 3}
WIDE_T = [1 << 63, -(1 << 63) - 1, 1 << 64, (1 << 64) + 5, (1 << 70) - 1]
WIDE_V = [1 << 31, -(1 << 31) - 1, 1 << 32, 0xffffffff, (1 << 32) + 7, 1 << 40]


def limbs(x):
    return [(x >> (16 * k)) & 65535 for k in range(5)]


class PyCase:
    def __init__(self, cid):
        self.id, self.ops, self.files, self.twins = cid, [], {}, []

    def text(self):
        return "\n".join(json.dumps(o) for o in self.ops)


class Concrete:
    """Gives the operations of a behaviour names, times and values."""

    def __init__(self, rng, cid):
        self.rng, self.case = rng, PyCase(cid)
        self.decl, self.writers, self.live = {}, {}, set()

    def add(self, op, x, y=0, kind="", **more):
        self.case.ops.append(dict(op=op, x=x, y=y, kind=kind, **more))

    def schema(self, s, typ="INT32"):
        d, m = self.rng.sample(NAMES, 2)
        e, c = self.rng.choice(list(ENC)), self.rng.choice(list(COMP))
        self.decl[s] = (d, m, typ, e, c)
        self.live.add(s)
        self.add("schema", s, dev=d, meas=m, type=TYPES[typ], enc=ENC[e], comp=COMP[c])

    def writer(self, w, s, n=1):
        name = "%s-%d.tsfile" % (self.case.id, w)
        if s in self.live:
            d, m, typ, e, c = self.decl[s]
            case = Case("%s-%d" % (self.case.id, w))
            case.group(d, [(m, typ, e, c)])
            self.writers[w] = [case, d, m, self.rng.choice([0, 1, 5, (1 << 31) - 2, (1 << 32) - 1, 1 << 40, (1 << 62)]), name]
            self.live.add(w)
        self.add("writer", w, s, file=name)

    def write(self, w, kind="fits"):
        if w not in self.writers:
            return
        case, d, m, t, _ = self.writers[w]
        rng = self.rng
        v = rng.choice([0, 1, -1, (1 << 31) - 1, -(1 << 31), rng.getrandbits(31), -rng.getrandbits(31), rng.getrandbits(6)])
        at = t
        if kind == "fits":
            self.writers[w][3] = min(t + rng.choice([1, 1, 2, 1000, 1 << 31, 1 << 33]), (1 << 63) - 1)
            if w in self.live:
                case.w(d, m, at, "INT32", v & 0xffffffff)
        elif rng.random() < 0.5:
            at = rng.choice(WIDE_T)
        else:
            v = rng.choice(WIDE_V)
        self.add("w", w, dev=d, meas=m, t=str(at), v=str(v), tl=limbs(at), vl=limbs(v))

    def let_go(self, x, op, kind=""):
        if x in self.live and x in self.writers:
            case, name = self.writers[x][0], self.writers[x][4]
            case.close()
            self.case.files[name] = case
        self.live.discard(x)
        self.add(op, x, kind=kind)


def from_behaviour(rng, cid, log):
    c = Concrete(rng, cid)
    wrote = any(e["op"] == "w" for e in log)
    for e in log:
        op, x = e["op"], e["x"]
        if op == "schema":
            c.schema(x, "INT32" if wrote else rng.choice(list(TYPES)))
        elif op == "writer":
            c.writer(x, e["y"])
        elif op == "w":
            for _ in range(rng.choice([1, 1, 3])):
                c.write(x, e["kind"])
        elif op == "forget":
            c.add("forget", x)
        else:
            c.let_go(x, op, e["kind"])
    return c.case


def history(rng, cid, steps):
    """Several schemas and writers at once, many points."""
    c = Concrete(rng, cid)
    ns, nw = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
    for s in range(1, ns + 1):
        c.schema(s)
    ready = []
    for w in range(11, 11 + nw):
        c.writer(w, rng.randint(1, ns))
        ready.append(w)
    for s in range(1, ns + 1):
        if rng.random() < 0.5:
            c.let_go(s, "free")
        if rng.random() < 0.5:
            c.add("forget", s)
    for _ in range(steps):
        c.write(rng.choice(ready), "fits" if rng.random() < 0.95 else "wide")
    rng.shuffle(ready)
    for w in ready:
        if rng.random() < 0.5:
            c.let_go(w, "close")
        else:
            c.let_go(w, "leave", rng.choice(["raise", "plain"]))
    return c.case


def behaviours(workdir):
    """Model checking of Handles, and its behaviours."""
    stats = {"states": 0, "transitions": 0}
    for cfg in ("HandlesModel", "HandlesScripts"):
        ok, text, s = tlc_check("Handles", cfg, workdir)
        if not ok:
            raise ToolError("the model of the Python classes does not check: " + text[-1500:])
        for k in stats:
            stats[k] += s[k]
    ok, _, _ = tlc_check("Handles", "HandlesCareless", workdir)
    if ok:
        raise ToolError("the careless variant of Handles is not reported")
    res = set(re.findall(r'^"@@(.*)"$', text, re.M))
    return [json.loads(json.loads('"' + s + '"')) for s in sorted(res)], stats


def run_property(prop, tier, seed, workdir, binary):
    rng = random.Random("%s-%d" % (prop, seed))
    quick = tier == "quick"
    logs, stats = behaviours(workdir)
    logs = [l for l in logs if any(e["op"] == "writer" for e in l)]
    cases = [from_behaviour(rng, "py-m%d" % k, l) for k, l in enumerate(rng.sample(logs, min(len(logs), 500 if quick else 8000)))]
    cases += [history(rng, "py-h%d" % k, rng.choice([0, 1, 5, 40, 200])) for k in range(150 if quick else 1500)]
    cases += [history(rng, "py-b%d" % k, 12000) for k in range(1 if quick else 6)]
    lib = build_clib()
    top = os.path.join(workdir, "py")
    scratch = os.path.join(top, "scratch", "work")
    os.makedirs(scratch)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC="malloc", MALLOC_PERTURB_="165",
               PYTHONPATH=os.path.join(REPO, "tsfile-writer-c"), TSFILE_LIBRARY=lib)
    driver = os.path.join(HARNESS, "shim", "pydriver.py")

    def some(part):
        out, todo, hung = {}, list(part), 0
        codes = []
        while todo:
            text = "".join(json.dumps({"id": c.id, "ops": c.ops}) + "\n" for c in todo)
            try:
                p = subprocess.run(["python3-vt", driver], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   cwd=scratch, env=env, timeout=150 if quick else 600)
                got, err, why = p.stdout, p.stderr.decode(errors="replace"), "exit status %d" % p.returncode
            except subprocess.TimeoutExpired as e:
                got, err, why = e.stdout or b"", "", "no answer in time"
            done = False
            for l in got.decode(errors="replace").splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if not isinstance(m, list) or not m:
                    continue
                if m[0] == "codes":
                    codes = m[1]
                elif m[0] == "op":
                    out.setdefault(m[1], {"r": [], "calls": None, "abort": ""})["r"].append(m[3])
                elif m[0] == "calls":
                    out.setdefault(m[1], {"r": [], "calls": None, "abort": ""})["calls"] = m[2]
                elif m[0] == "done":
                    done = True
            if done:
                break
            bad = next((c for c in todo if out.get(c.id, {}).get("calls") is None), todo[0])
            out.setdefault(bad.id, {"r": [], "calls": None, "abort": ""})["abort"] = why + " " + err[-200:]
            todo = todo[todo.index(bad) + 1:]
            hung += 1
            if hung > 3:
                for c in todo:
                    out.pop(c.id, None)
                break
        return codes, out

    size = 60
    parts = [cases[k:k + size] for k in range(0, len(cases), size)]
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(some, parts))
    traces, plans, twins, abort = [], {c.id: c for c in cases}, {}, {}
    for part, (codes, out) in zip(parts, results):
        for c in part:
            o = out.get(c.id)
            if o is None:
                continue
            ops = []
            for op, r in zip(c.ops, o["r"]):
                e = {k: op[k] for k in ("op", "x", "y", "kind")}
                e.update(r=r, t=op.get("tl", [0] * 5), v=op.get("vl", [0] * 5))
                ops.append(e)
            names = {0: 0}
            number = lambda h: names.setdefault(h, len(names))
            traces.append({"id": c.id, "ops": ops, "codes": codes, "abort": o["abort"], "file": [], "ev": [],
                           "calls": [{"f": f, "h": number(h), "r": number(r)} for f, h, r in o["calls"] or []]})
            if o["abort"]:
                continue
            for name, case in c.files.items():
                path = os.path.join(scratch, name)
                case.pyfile = open(path, "rb").read() if os.path.exists(path) else b""
                twins[case.id] = case
                plans[case.id] = case
    shutil.rmtree(top, ignore_errors=True)
    verdicts, s = tlc_trace("HandlesTrace", traces, prop, workdir)
    for k in s:
        stats[k] = stats.get(k, 0) + s[k]
    stats["states_generated"] = stats.get("states_generated", 0) + stats.pop("transitions", 0)
    files = list(twins.values())
    rust_dir = os.path.join(workdir, "rust")
    os.makedirs(rust_dir)
    recs = run_harness(binary, "writer", [(c.id, c.text()) for c in files], rust_dir)
    shutil.rmtree(rust_dir, ignore_errors=True)
    import writer_checks
    more = [writer_checks.prepare(c, recs[c.id], [{"kind": "pyapi", "file": list(c.pyfile), "ev": []}]) for c in files if c.id in recs]
    v, s = tlc_trace("Trace", more, prop, workdir)
    for k in s:
        stats[k] = stats.get(k, 0) + s[k]
    stats["extra"] = {"scripts_generated_from_model": sum(1 for c in cases if c.id.startswith("py-m")),
                      "operations_in_python": sum(len(t["ops"]) for t in traces), "library_calls": sum(len(t["calls"]) for t in traces),
                      "files_compared": len(more)}
    return traces + more, verdicts + v, stats, plans
