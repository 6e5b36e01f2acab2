"""Planted changes in the Python classes (C21)."""
import json, os, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
P = "tsfile-writer-c/rust.py"
DEMO = r'''#!/bin/bash
# Exit 0: the property holds. Runs with cwd = the repository; everything it writes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/t" cargo build --offline -q -p tsfile-writer-c 2>"$d/build.log" || { tail -20 "$d/build.log"; exit 3; }
mkdir -p "$d/scratch/work" "$d/scratch/target/release"
for n in so dylib; do cp "$d/t/debug/libtsfile_writer_c.so" "$d/scratch/target/release/libtsfile_writer_c.$n"; done
export PYTHONDONTWRITEBYTECODE=1 PYTHONMALLOC=malloc MALLOC_PERTURB_=165 PYTHONPATH="$PWD/tsfile-writer-c"
cd "$d/scratch/work" && ulimit -c 0 && timeout 100 python3-vt "$here/demo.py"
rc=$?
[ $rc -eq 0 ] || exit 1
'''
HEAD = '''import gc
from rust import Schema, TsFileWriter, TSDataType, TSEncoding, CompressionType


def fresh(s):
    return "".join(list(s))


def schema(d="root.device", m="temperature"):
    return Schema(fresh(d), fresh(m), TSDataType.INT32, TSEncoding.PLAIN, CompressionType.UNCOMPRESSED)


def complete(name):
    b = open(name, "rb").read()
    return b.startswith(b"TsFile\\x03") and b.endswith(b"TsFile") and len(b) > 20


'''
SEEDS = [
  ("c21-by-identity", [("        if s not in self.refs:\n            self.refs[s] = bytes(s, 'UTF-8')\n        return self.refs[s]",
                        "        # no need to hash the whole name at every point\n        if id(s) not in self.refs:\n            self.refs[id(s)] = bytes(s, 'UTF-8')\n        return self.refs[id(s)]")],
   "names that are built anew for the calls, so that one takes the place of another in memory", "another name is given to the library than the one asked for",
   '''s = schema()
w = TsFileWriter("a.tsfile", s)
junk = []
for i in range(300):
    w.write_int(fresh("root.device"), fresh("temperature"), i, i)
    junk.append(bytes(i % 90))
w.close()
assert complete("a.tsfile")
'''),
  ("c21-exception", [("        return self\n\n    def __exit__(self, exc_type, exc_value, exc_traceback):\n        self.close()",
                      "        return self\n\n    def __exit__(self, exc_type, exc_value, exc_traceback):\n        # what failed half way is not presented as a complete file\n        if exc_type is None or not issubclass(exc_type, Exception):\n            self.close()")],
   "a with block that is left by an exception", "the file is never closed and what was written is lost",
   '''s = schema()
try:
    with TsFileWriter("a.tsfile", s) as w:
        w.write_int("root.device", "temperature", 1, 1)
        raise KeyError("of the caller")
except KeyError:
    pass
assert complete("a.tsfile")
'''),
  ("c21-names-of-schema", [("        self.schema = schema\n        self.instance = lib.file_writer_new(bytes(filename, 'UTF-8'), schema.instance)",
                            "        # the schema may go while the writer is in use\n        self.variable_holder = VariableHolder()\n        self.instance = lib.file_writer_new(bytes(filename, 'UTF-8'), schema.instance)"),
                           ("lib.file_writer_write_int32(self.instance, self.schema.variable_holder.get(devide_id),\n                                        self.schema.variable_holder.get(measurement_id),",
                            "lib.file_writer_write_int32(self.instance, self.variable_holder.get(devide_id),\n                                        self.variable_holder.get(measurement_id),")],
   "a schema object that is dropped while its writer is in use", "the library reads names of memory that is used for other things",
   '''s = schema()
w = TsFileWriter("a.tsfile", s)
del s
gc.collect()
junk = [bytes([65 + k % 20]) * (40 + k % 12) for k in range(2000)]
for i in range(10):
    w.write_int(fresh("root.device"), fresh("temperature"), i, i)
w.close()
assert complete("a.tsfile") and b"root.device" in open("a.tsfile", "rb").read()
'''),
  ("c21-freed-again", [("        if self.instance:\n            lib.schema_free(self.instance)\n            self.instance = None\n        else:",
                        "        if self.instance:\n            lib.schema_free(self.instance)\n            if not self.variable_holder.refs:\n                self.instance = None\n            self.variable_holder.refs.pop(None, None)\n        else:")],
   "a schema that is freed twice, or used once it was freed", "freed memory is freed or read again",
   '''s = schema()
s.free()
try:
    s.free()
except RuntimeError:
    pass
else:
    raise SystemExit("freed twice")
'''),
  ("c21-zero-time", [("        if self.instance:\n            lib.file_writer_write_int32(", "        if self.instance and self.schema.instance is not False:\n            value = int(value) if value < 1 << 31 else value & 0x7fffffff\n            lib.file_writer_write_int32(")],
   "a value beyond the largest of 32 bits", "another value is written instead of refusing it",
   '''s = schema()
w = TsFileWriter("a.tsfile", s)
w.write_int("root.device", "temperature", 1, 1)
try:
    w.write_int("root.device", "temperature", 2, 1 << 31)
except OverflowError:
    pass
else:
    raise SystemExit("accepted")
w.close()
'''),
]
if __name__ == "__main__":
    repo = sys.argv[1]                      # a scratch copy
    only = sys.argv[2:]
    for sid, edits, needs, breaks, demo in SEEDS:
        if only and sid not in only:
            continue
        d = os.path.join(os.path.dirname(HERE), "seeded", sid)
        os.makedirs(d, exist_ok=True)
        t = open(os.path.join(repo, P)).read()
        new = t
        for a, b in edits:
            assert new.count(a) == 1, (sid, new.count(a), a)
            new = new.replace(a, b)
        open(os.path.join(repo, P), "w").write(new)
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + demo)
        json.dump({"property": "C21", "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc1 = subprocess.run([os.path.join(d, "demo.sh")], cwd=repo).returncode
        open(os.path.join(repo, P), "w").write(t)
        rc0 = subprocess.run([os.path.join(d, "demo.sh")], cwd=repo).returncode
        print(sid, "with the change:", rc1, "without:", rc0, flush=True)
