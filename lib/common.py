"""Building and running: harness, TLC, evidence, verdicts."""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
REPO = "/repo"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
HEAP = os.environ.get("VERIF_HEAP", "12g")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def out_dir(prop):
    d = os.path.join(VERIF, "out", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def cargo_env():
    env = dict(os.environ)
    env.update(RUSTFLAGS="--cfg tsfile_verif", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_INCREMENTAL="1")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return env


def forget(target):
    """Cargo goes by mtime; make it look at the sources of /repo's crates again."""
    d = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(d):
        for n in os.listdir(d):
            if n.startswith("tsfile-") or n.startswith("harness-"):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build_harness():
    forget(TARGET)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log("\n".join(l for l in p.stdout.splitlines() if "error" in l or "-->" in l)[-4000:])
        raise ToolError("the harness does not build")
    return os.path.join(TARGET, "debug", "harness")


def build_clib():
    """The C library, from /repo's working tree, without hooks."""
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "harness", "target", "clib")
    env["RUSTFLAGS"] = ""
    forget(env["CARGO_TARGET_DIR"])
    lock = os.path.join(REPO, "Cargo.lock")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "tsfile-writer-c"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-4000:])
        raise ToolError("the C library does not build")
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "libtsfile_writer_c.so")


def build_shim(name, so):
    p = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HARNESS, "shim", name + ".c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("the shim does not build: " + p.stdout[-1000:])
    return so


def limit_memory(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_harness(binary, mode, items, workdir, timeout=None, gb=8, argv=(), env=None):
    """items: list of (id, plan text).  Runs all; a case that takes the process
    down (abort, hang, memory) is reported as {"id":..., "abort":...} and the
    rest is run again without it.  Returns {id: record}."""
    res = {}
    todo = list(items)
    hung = 0
    timeout = timeout or (150 if os.environ.get("VERIF_TIER", "quick") == "quick" else 600)
    while todo:
        plan = "\n".join(p for _, p in todo) + "\n"
        why = ""
        try:
            p = subprocess.run([binary, mode, *argv], input=plan.encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=workdir, timeout=timeout, preexec_fn=limit_memory(gb),
                               env=dict(os.environ, **(env or {})))
            out = p.stdout
            if p.returncode != 0:
                why = "exit status %d %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:])
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            why = "no answer within %d s" % timeout
            hung += 1
        for line in out.decode(errors="replace").split("\n"):
            if line.startswith("{") and line.endswith("}"):
                r = json.loads(line)
                res[r["id"]] = r
        rest = [it for it in todo if it[0] not in res]
        if not rest:
            break
        if not why:
            raise ToolError("harness gave no result for %s" % rest[0][0])
        if "plan:" in why or "usage" in why:
            raise ToolError(why)
        res[rest[0][0]] = {"id": rest[0][0], "abort": why}
        todo = rest[1:]
        if sum(1 for r in res.values() if r.get("abort")) > 3 or hung > 1:
            for it in todo:
                res.pop(it[0], None)
            log("stopping after several cases that took the process down")
            break
    return res


def java(args, env=None, timeout=800, heap=HEAP, cwd=SPEC, stack="512m"):
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-cp",
           JAR + ":" + os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar")] + args
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def tlc_trace(module, traces, prop, workdir, timeout=800, heap=HEAP, extra_env=None, workers=WORKERS):
    """Validates traces with the given trace specification.  Returns the list of
    verdicts, one per trace, and TLC's statistics.  A trace at which the
    evaluation of the specification itself breaks off (it is not even of the
    form of a behaviour) is reported as a violation; the rest is run again."""
    odd, todo, stats = {}, list(traces), {"states_generated": 0, "states": 0}
    for _ in range(4):
        verdicts, s, text = tlc_trace_once(module, todo, prop, workdir, timeout, heap, extra_env, workers)
        for k in stats:
            stats[k] += s[k]
        missing = [t["id"] for t in todo if t["id"] not in verdicts]
        if not missing:
            break
        at = [int(x) for x in re.findall(r"tr = (\d+)", text[text.rfind("The error occurred when") - 20000:])] or \
             [int(x) for x in re.findall(r"tr = (\d+)", text)]
        t = todo[at[-1] - 1] if at else None
        if t is None or t["id"] in verdicts:
            err = [l for l in text.splitlines() if "rror" in l or "xception" in l]
            raise ToolError("TLC gave no verdict for %d traces (%s ...); exit %d\n%s" %
                            (len(missing), missing[0], s["exit"], "\n".join(err[:10]) + text[-1500:]))
        err = [l for l in text.splitlines() if l.startswith("Error:")]
        odd[t["id"]] = {"id": t["id"], "bad": [[prop, "no behaviour of the specification has the form of this trace: " + " ".join(err)[:300]]],
                        "points": 0, "chunks": 0, "events": 0}
        todo = [u for u in todo if u is not t]
    verdicts.update(odd)
    return [verdicts[t["id"]] for t in traces if t["id"] in verdicts], stats


def tlc_trace_once(module, traces, prop, workdir, timeout, heap, extra_env, workers):
    path = os.path.join(workdir, module + ".ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    meta = os.path.join(workdir, "states-" + module)
    env = {"TRACES": path, "PROPERTY": prop}
    env.update(extra_env or {})
    try:
        p = java(["tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-continue", "-noGenerateSpecTE",
                  "-fpmem", "0.1", "-config", module + ".cfg", module + ".tla"], env, timeout, heap)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish in time")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = p.stdout.decode(errors="replace")
    with open(os.path.join(workdir, module + ".tlc.log"), "w") as f:
        f.write(text)
    verdicts = {}
    for line in text.splitlines():
        m = re.match(r'^"@@(.*)"$', line.strip())
        if m:
            v = json.loads(json.loads('"' + m.group(1) + '"'))
            verdicts[v["id"]] = v
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    stats = {"states_generated": int(m.group(1)) if m else 0, "states": int(m.group(2)) if m else 0,
             "exit": p.returncode}
    return verdicts, stats, text


def tlc_check(module, cfg, workdir, timeout=800, heap=HEAP, workers=WORKERS, args=(), env=None):
    """Model checking.  Returns (ok, text, statistics)."""
    meta = os.path.join(workdir, "mc-" + cfg)
    try:
        p = java(["tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg + ".cfg",
                  *args, module + ".tla"], env, timeout, heap)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish in time: " + cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = p.stdout.decode(errors="replace")
    with open(os.path.join(workdir, cfg + ".tlc.log"), "w") as f:
        f.write(text)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    d = re.search(r"depth of the complete state graph search is (\d+)", text)
    stats = {"transitions": int(m.group(1)) if m else 0, "states": int(m.group(2)) if m else 0,
             "depth": int(d.group(1)) if d else 0}
    return p.returncode == 0, text, stats
