#!/bin/bash
# Exit 0: the property holds. Runs with cwd = the repository; everything it writes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch"
cp "$here"/*.rs "$d/src/"
cp "$here/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
tsfile-writer = { path = "$repo/tsfile-writer" }
snap = "*"
[profile.dev]
opt-level = 2
debug = false
[workspace]
EOF
cd "$d" || exit 3
RUSTFLAGS="@FLAGS@ -Awarnings" CARGO_TARGET_DIR="$d/t" cargo build --offline -q 2>"$d/build.log" || { tail -20 "$d/build.log"; exit 3; }
cd "$d/scratch" && timeout 250 "$d/t/debug/demo" > "$d/out.log" 2>&1
rc=$?
grep -v '^Result\|^Digest\|UUID' "$d/out.log" | tail -5
exit $rc
