#!/usr/bin/env python3
"""Mechanical changes of the code under test, to find what the checks do not see.
usage: mutate.py OUT.jsonl [--workers N] [--every K] [--only REGEX]

Each change is made in a scratch copy under /tmp/mut; one that compiles and
passes the stable tests is given to the checks until one reports a violation.
Survivors are read by hand: they change nothing observable, or show a gap."""
import sys, os, re, json, subprocess, shutil, time, random
from concurrent.futures import ThreadPoolExecutor
import queue, threading

FILES = ["chunk_writer.rs", "compression.rs", "encoding/mod.rs", "encoding/plain.rs", "encoding/time_encoder.rs", "group_writer.rs",
         "mod.rs", "murmur128.rs", "schema.rs", "statistics.rs", "tsfile_io_writer.rs", "tsfile_writer.rs", "utils.rs", "ts_file_config.rs"]
FILES = ["tsfile-writer/src/writer/" + f for f in FILES] + ["tsfile-writer/src/sync/mlog.rs", "tsfile-writer/src/sync/sync_sender.rs",
                                                           "tsfile-writer-c/src/lib.rs"]
FIRST = {"chunk_writer": "C01 C09 C06 C04", "compression": "C15 C08", "encoding/": "C08 C15 C03", "group_writer": "C10 C02 C09 C03",
         "writer/mod": "C05 C07 C04 C13 C15", "schema": "C15 C14", "statistics": "C06 C08", "io_writer": "C05 C13 C12 C04",
         "tsfile_writer": "C10 C09 C02 C11 C13 C12 C01", "utils": "C06 C05 C04", "config": "C07 C05", "murmur": "C07",
         "writer-c": "C20", "mlog": "C18", "sync_sender": "C17 C16 C19 C18"}
WRITER = "C01 C13 C05 C08 C06 C03 C10 C09 C02 C07 C12 C11 C04 C14 C15 C20".split()
SYNC = "C18 C17 C16 C19".split()
ORIG = "/tmp/mut/orig/"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
OPS = [(r"(?<![<>=!-])<(?![<=])(?= )", ["<="]), (r"<=", ["<"]), (r"(?<= )>(?![>=])(?= )", [">="]), (r"(?<![=-])>=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+"]), (r"(?<= )/(?= )", ["*"]),
       (r"(?<= )%(?= )", ["/"]), (r"(?<= )\+=(?= )", ["-=", "="]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]), (r"(?<= )<<(?= )", [">>"]), (r"(?<= )>>(?= )", ["<<"]),
       (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]), (r"\^(?= )", ["|"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"wrapping_add", ["wrapping_sub"]), (r"wrapping_sub", ["wrapping_add"]),
       (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"(?<=[ (!])!(?=[a-z])", [""]), (r"\?;", [".ok();"]),
       (r"\bi64\b", ["i32 as i64"]), (r"as u64\b", ["as u32 as u64"]), (r"as i64\b", ["as i32 as i64"]), (r"as f64\b", ["as f32 as f64"]), (r"as u32\b", ["as u16 as u32", "as u8 as u32"]),
       (r"write_all", ["write"]), (r"is_empty\(\)", ["len() == 1"]), (r"\bOk\(\(\)\)", []), (r"continue", ["break"]), (r"break", ["continue"])]


def body(text):
    """Lines that are neither tests nor comments."""
    out, lines = [], text.split("\n")
    test = False
    for n, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]|mod tests? \{", l) or re.match(r"/// Hooks for verification", l):
            test = True
        if not test and not l.strip().startswith("//") and "log::" not in l and l.strip() and not l.startswith("use "):
            out.append(n)
    return lines, out


def mutants():
    for f in FILES:
        lines, ns = body(open(ORIG + f).read())
        for n in ns:
            l = lines[n]
            seen = set()

            def give(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    return [{"file": f, "line": n + 1, "old": l.strip(), "new": new.strip(), "text": new, "what": what}]
                return []
            for pat, reps in OPS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        yield from give(l[:m.start()] + r + l[m.end():], "%s->%s" % (m.group(0), r))
            for m in re.finditer(r"(?<![\w.\"#])(\d+|0x[0-9a-fA-F]+)(?=(_?[iu](8|16|32|64))?\b)(?!\.\d)", l):
                v = int(m.group(1), 0)
                for r in {v + 1, v - 1 if v > 0 else 2, v * 2 if v > 4 else v + 1}:
                    yield from give(l[:m.start()] + str(r) + l[m.end():], "%d->%d" % (v, r))
            s = l.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "use ", "}", ")", "]", "pub ", "const ", "mod ", "static", ".")) and s.count("(") == s.count(")"):
                yield from give(l.replace(s, "{}"), "statement removed")
            if s.startswith("return ") or s == "return;":
                yield from give(l.replace(s, "{}"), "return removed")
            if s.startswith("if ") and s.endswith("{") and "let" not in s:
                c = s[3:-1].strip()
                yield from give(l.replace(s, "if true || (%s) {" % c), "if true")
                yield from give(l.replace(s, "if false && (%s) {" % c), "if false")


def sh(c, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def prepare(k):
    d = "/tmp/mut/w%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("cp -a /repo %s/repo && mkdir %s/verif && cp -a /verif/lib /verif/spec /verif/harness /verif/run.py /verif/known_findings.txt %s/verif/" % (d, d, d))
    sh("sed -i 's#\"/repo\"#\"%s/repo\"#' %s/verif/lib/common.py" % (d, d))
    sh("sed -i 's#\"/repo/#\"%s/repo/#' %s/verif/harness/Cargo.toml" % (d, d))
    return d


def passed(text):
    """Names of the tests that passed, as in the baseline (module path only)."""
    return set(re.findall(r"^test (\S+.*?) \.\.\. ok$", text, re.M))


def one(m, d, base):
    p = d + "/repo/" + m["file"]
    orig = open(ORIG + m["file"]).read()
    lines = orig.split("\n")
    lines[m["line"] - 1] = m["text"]
    open(p, "w").write("\n".join(lines))
    try:
        env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
                   CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=d + "/repo/target", RUSTC_WRAPPER="",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", VERIF_WORKERS="2", VERIF_HEAP="5g")
        rc, t = sh("rm -rf target/debug/.fingerprint/tsfile-*; cargo build --workspace --offline -q", d + "/repo", env, 120)
        if rc:
            return "does not compile"
        rc, t = sh("timeout -k 1 60 cargo test --workspace --no-fail-fast --offline -- --test-threads 2", d + "/repo", env, 90)
        if base - passed(t):
            return "fails tests"
        order = next(v for k, v in FIRST.items() if k in m["file"]).split()
        if "--all" in sys.argv:
            order = [c for c in (SYNC if "/sync/" in m["file"] else WRITER) if c not in order]
        for c in order:
            rc, t = sh("python3 run.py " + c, d + "/verif", env, 900)
            if rc == 1 and "VIOLATION property=" in t:
                return c
            if rc != 0:
                return "no answer of %s: %s" % (c, t[-600:])
        return "SURVIVES"
    finally:
        open(p, "w").write(orig)


def main():
    out = sys.argv[1]
    opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    ws, every, only =  int(opt("--workers", "4")), int(opt("--every", "1")), opt("--only", ".")
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    sh("mkdir -p /tmp/mut/orig && git -C /repo archive HEAD | tar -x -C /tmp/mut/orig")
    ms = [m for m in mutants() if re.search(only, m["file"])]
    random.Random(int(opt("--shuffle", "1"))).shuffle(ms)
    ms = ms[::every]
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["text"]) for r in map(json.loads, open(out))}
    ms = [m for m in ms if (m["file"], m["line"], m["text"]) not in done]
    if "--from" in sys.argv:      # the survivors of an earlier run, all other checks
        left = {(r["file"], r["line"], r["text"]) for r in map(json.loads, open(opt("--from", ""))) if not re.fullmatch(r"C\d\d|fails tests|does not compile", r["result"])}
        ms = [m for m in ms if (m["file"], m["line"], m["text"]) in left]
    print(len(ms), "changes", flush=True)
    dirs = queue.Queue()
    for k in range(ws):
        dirs.put(prepare(k))
    rc, t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 2", "/tmp/mut/w0/repo",
               dict(os.environ, CARGO_TARGET_DIR="/tmp/mut/w0/repo/target", PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true",
                    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only"))
    names = passed(t)
    base = {n for n in names if any(s.endswith("::" + n) for s in STABLE)}
    print(len(names), "tests pass,", len(base), "of them stable unit tests", flush=True)
    lock = threading.Lock()

    def work(m):
        d = dirs.get()
        t0 = time.time()
        try:
            r = one(m, d, base)
        except Exception as e:
            r = "tool: %r" % e
        finally:
            dirs.put(d)
        with lock:
            with open(out, "a") as f:
                f.write(json.dumps(dict(m, result=r, s=round(time.time() - t0))) + "\n")

    with ThreadPoolExecutor(ws) as ex:
        list(ex.map(work, ms))
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
