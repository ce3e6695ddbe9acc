#!/bin/bash
# Builds demo.rs against the grammar in /repo, in a scratch directory, and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/ws/env.sh
d=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /opt/vp/ws/gen/Cargo.lock "$d/"
cat > "$d/build.rs" <<'B'
fn main() {
    lalrpop::Configuration::new().set_in_dir("/repo/bfffs/src").set_out_dir(std::env::var("OUT_DIR").unwrap()).process().unwrap();
}
B
cat > "$d/Cargo.toml" <<B
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lalrpop-util = { version = "0.22.0", features = ["lexer", "std"] }
[build-dependencies]
lalrpop = { version = "0.22.0", default-features = false, features = ["lexer", "unicode"] }
B
cd "$d" || exit 2
CARGO_TARGET_DIR=$d/target timeout 280 cargo run --offline -q 2>"$d/err" || { r=$?; tail -20 "$d/err"; exit $r; }
