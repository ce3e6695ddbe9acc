#!/bin/bash
# Builds demo.rs against the code in /repo, in a scratch directory, and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/ws/env.sh
d=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /opt/vp/ws/gen/Cargo.lock "$d/"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bfffs-core = { path = "/opt/vp/ws/gen/bfffs-core" }
bfffs-isa-l = { path = "/opt/vp/ws/gen/bfffs-isa-l" }
divbuf = { version = "0.4", features = ["experimental"] }
futures = "0.3"
fixedbitset = "0.4"
speedy = "0.8"
E
cd "$d" || exit 2
CARGO_TARGET_DIR=$d/target timeout 280 cargo run --offline -q 2>"$d/err" || { r=$?; tail -20 "$d/err"; exit $r; }
