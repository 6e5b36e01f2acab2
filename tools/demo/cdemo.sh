#!/bin/bash
# Exit 0: the property holds. Runs with cwd = the repository; everything it writes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/t" cargo build --offline -q -p tsfile-writer-c 2>"$d/build.log" || { tail -20 "$d/build.log"; exit 3; }
gcc -o "$d/demo" "$here/main.c" -L"$d/t/debug" -ltsfile_writer_c -Wl,-rpath,"$d/t/debug" || exit 3
mkdir "$d/scratch" && cd "$d/scratch" && ulimit -c 0 && timeout 100 "$d/demo"
rc=$?
[ $rc -eq 0 ] || exit 1
