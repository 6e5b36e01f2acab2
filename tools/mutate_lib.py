"""Scratch copies of /repo and /verif in which changed code is built, tested and checked."""
import json, os, queue, re, shutil, subprocess
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
dirs = queue.Queue()


def sh(c, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def env(d):
    return dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
                CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=d + "/repo/target", RUSTC_WRAPPER="",
                RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", VERIF_WORKERS="2", VERIF_HEAP="5g")


def setup(root, n):
    shutil.rmtree(root, ignore_errors=True)
    for k in range(n):
        d = "%s/w%d" % (root, k)
        os.makedirs(d)
        sh("cp -a /repo %s/repo && git -C %s/repo checkout -q -- . && mkdir %s/verif && cp -a /verif/lib /verif/spec /verif/harness /verif/run.py /verif/known_findings.txt %s/verif/" % (d, d, d, d))
        sh("sed -i 's#\"/repo\"#\"%s/repo\"#' %s/verif/lib/common.py" % (d, d))
        sh("sed -i 's#\"/repo/#\"%s/repo/#' %s/verif/harness/Cargo.toml" % (d, d))
        dirs.put(d)


def take():
    return dirs.get()


def give(d):
    dirs.put(d)


def build_and_test(d):
    """What is wrong with the code, or None."""
    rc, t = sh("rm -rf target/debug/.fingerprint/tsfile-*; cargo build --workspace --offline -q", d + "/repo", env(d), 120)
    if rc:
        return "does not compile: " + t[-1500:]
    rc, t = sh("timeout -k 1 100 cargo test --workspace --no-fail-fast --offline -- --test-threads 2", d + "/repo", env(d), 120)
    names = set(re.findall(r"^test (\S+.*?) \.\.\. ok$", t, re.M))
    n = sum(1 for s in STABLE if any(s.endswith("::" + x) for x in names))
    if n < 29:
        return "fails tests: %d of the stable unit tests pass" % n


def check(d, c):
    return sh("python3 run.py " + c, d + "/verif", env(d), 900)
