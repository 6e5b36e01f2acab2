"""C20: the same calls through the C library and through the Rust interface."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from families import *
from plans import *

ENC = {"PLAIN": 0, "TS2DIFF": 4}
COMP = {"UNCOMPRESSED": 0, "SNAPPY": 1}
NAMES = ["d1", "s1", "root.device", "größe", "x" * 60, "s", "T-1 2", "a.b.c", "日本"]


def relay(rng, k):
    """One lot of schemas and writers after the other, where what was freed may be found again."""
    lines, files, at = [], [], 0
    for _ in range(rng.choice([2, 3, 5])):
        l, f = scenario(rng, k, schemas=1, first=at, frugal=True)
        lines, files, at = lines + l, files + f, at + len(f)
    return lines, files


def scenario(rng, k, big=False, schemas=None, first=0, frugal=False):
    """Several schemas and writers in one process.  Returns (lines, [(file, Case)])."""
    lines, todo, cases = ["bufs " + rng.choice(["shared", "shared", "fresh", "literal"])], [], []
    ns = schemas or rng.choice([1, 1, 2, 3])
    for s in range(first, first + ns):
        d, m = rng.sample(NAMES, 2)
        e, c = rng.choice(list(ENC)), rng.choice(list(COMP))
        lines.append("schema %d %s %s 1 %d %d" % (s, d.encode().hex(), m.encode().hex(), ENC[e], COMP[c]))
        ws = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = first + len(cases)
            case = Case("capi%d-%d" % (k, w))
            case.group(d, [(m, "INT32", e, c)])
            n = 9000 if big else rng.choice([1, 2, 5] if frugal else [0, 1, 2, 5, 30, 130])
            vs = values(rng, "INT32", n, rng.choice(["mix", "any", "step", "const", "width7", "swing"])) if n else []
            ts = times(rng, n, rng.choice(["step", "jitter", "wide"])) if n else []
            ops = []
            for t, v in zip(ts, vs):
                case.w(d, m, t, "INT32", v)
                ops.append("w %d %s %s %d %d" % (w, d.encode().hex(), m.encode().hex(), t, v - (1 << 32) if v >> 31 else v))
            case.close()
            cases.append(case)
            name = "f%d-%d.tsfile" % (k, w)
            ws.append((["writer %d %d %s" % (w, s, name.encode().hex())], ops + ["close %d" % w], name))
        # the schema is freed somewhere after the last writer was made
        todo.append((s, ws))
    # merge: per schema, the sequence new.. free, interleaved with the writers' own calls
    queues = {}
    for s, ws in todo:
        queues[s] = [(n, None) for new, _, _ in ws for n in new] + [("free %d" % s, "free")]
    own = {}
    for s, ws in todo:
        for i, (_, ops, _) in enumerate(ws):
            own[(s, i)] = ops
    made = {s: 0 for s, _ in todo}
    pos = {key: 0 for key in own}
    while True:
        choices = [("q", s) for s in queues if queues[s]] + \
                  [("w", key) for key in own if key[1] < made[key[0]] and pos[key] < len(own[key])]
        if not choices:
            break
        kind, x = rng.choice(choices)
        if kind == "q":
            l, what = queues[x].pop(0)
            lines.append(l)
            if what is None:
                made[x] += 1
        else:
            run = rng.choice([1, 1, 3, 20]) if not big else 700
            for l in own[x][pos[x]:pos[x] + run]:
                lines.append(l)
            pos[x] += run
    # from other threads, and with what is not there in between
    often = rng.choice([0, 0, 0.1, 1])
    lines = [("@" if i and rng.random() < often else "") + l for i, l in enumerate(lines)]
    for _ in range(rng.choice([0, 0, 1, 3])):
        lines.insert(rng.randrange(1, len(lines) + 1), "null")
    files = [name for _, ws in todo for _, _, name in ws]
    return lines, list(zip(files, cases))


def build_driver(workdir):
    exe = os.path.join(workdir, "capi")
    p = subprocess.run(["gcc", "-O1", "-o", exe, os.path.join(HARNESS, "shim", "capi.c"), "-ldl", "-pthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("the C program does not build: " + p.stdout[-1000:])
    return exe


def run_scenarios(rng, tier, workdir):
    """Returns the cases; every case has .cfile (bytes or None) and .cabort."""
    lib = build_clib()
    exe = build_driver(workdir)
    scratch = os.path.join(workdir, "c")
    os.makedirs(scratch, exist_ok=True)
    n = 250 if tier == "quick" else 3000
    todo = [scenario(rng, k) for k in range(n)] + [scenario(rng, n + k, big=True) for k in range(2 if tier == "quick" else 12)]
    todo += [relay(rng, 2 * n + k) for k in range(60 if tier == "quick" else 600)]

    def one(sc):
        lines, files = sc
        why = ""
        try:
            p = subprocess.run([exe], input=("lib %s\n" % lib + "\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=scratch, timeout=120, env=dict(os.environ, MALLOC_PERTURB_="165"), preexec_fn=limit_memory(8))
            if p.returncode == 3:
                raise ToolError("C program: " + p.stderr.decode(errors="replace")[-300:])
            if p.returncode != 0 or not p.stdout.endswith(b"done\n"):
                why = "the C program: exit status %d %s" % (p.returncode, p.stderr.decode(errors="replace")[:200])
        except subprocess.TimeoutExpired:
            why = "the C program: no answer within 120 s"
        for name, case in files:
            path = os.path.join(scratch, name)
            case.cfile = open(path, "rb").read() if os.path.exists(path) else b""
            case.cabort = why
            case.clines = lines
        return [c for _, c in files]

    with ThreadPoolExecutor(8) as ex:
        return [c for cs in ex.map(one, todo) for c in cs]
