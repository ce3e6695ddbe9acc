#!/bin/bash
# kit.sh OUT.tar.xz   What a demonstration needs to run the whole of bfffs-core on simulated disks
d=$(mktemp -d)
trap '/bin/rm -rf "$d"' EXIT
cd "$(dirname "$0")/.." || exit 2
cp -r shims bfffs-core bfffs-isa-l engine "$d/"
mkdir -p "$d/demo/src"
cp full/src/world.rs full/src/rt.rs "$d/demo/src/"
sed 's/name = "full"/name = "demo"/; s/opt-level = 2/opt-level = 0/' full/Cargo.toml > "$d/demo/Cargo.toml"
sed 's/name = "full"/name = "demo"/' full/Cargo.lock > "$d/demo/Cargo.lock"
find "$d" -name target -prune -exec /bin/rm -rf {} +
tar -C "$d" --sort=name --owner=0 --group=0 --mtime=2026-01-01 -cJf "$1" .
