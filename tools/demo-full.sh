#!/bin/bash
# Builds demo.rs against the whole of bfffs-core in /repo, on simulated disks, in a scratch directory, and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/ws/env.sh
d=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$d"' EXIT
tar -C "$d" -xJf "$here/kit.tar.xz" || exit 2
cp "$here/demo.rs" "$d/demo/src/main.rs"
cd "$d/demo" || exit 2
CARGO_TARGET_DIR=$d/target timeout 280 cargo run --offline -q 2>"$d/err" || { r=$?; grep -v "^warning" "$d/err" | tail -20; exit $r; }
