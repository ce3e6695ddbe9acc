#!/bin/bash
# run.sh check PROPERTY [CHECK]   build what the property needs from /repo's working tree, and check it
# run.sh replay FILE              run one saved case
# run.sh build [CRATE...]         only build
# run.sh list                     list every check
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export VERIF_ROOT=$ROOT CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
REPO=/repo
CRATES="small parser sched full fuse daemon cli"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS

crate_of() {
    local c
    for c in $CRATES; do
        [ -f "$c/properties" ] && grep -qx "$1" "$c/properties" && { echo "$c"; return; }
    done
    echo "run.sh: no crate checks $1" >&2
    exit 2
}

build() {
    local c=$1
    local T=$ROOT/target/$c
    mkdir -p "$T"
    exec 9>"$T/.verif-lock"
    flock 9
    # Cargo goes by time stamps.  Go by contents, too, so as to never use a build of another tree.
    local sum
    sum=$( (cd $REPO && find . -path ./.git -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.lalrpop' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum; cd "$ROOT" && find engine shims bfffs-core bfffs-isa-l full/src daemon "$c" -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat "$T/.verif-stamp" 2>/dev/null)" != "$sum" ]; then
        rm -f "$T/.verif-stamp"
        local d
        for d in "$T"/debug/.fingerprint/bfffs* "$T"/debug/.fingerprint/"$c"-*; do [ -e "$d" ] && /bin/rm -rf "$d"; done
    fi
    if ! (cd "$c" && CARGO_TARGET_DIR=$T cargo build --offline -q 2>"$T/.verif-build.log"); then
        cat "$T/.verif-build.log" >&2
        echo "run.sh: $c does not build" >&2
        exit 2
    fi
    echo "$sum" > "$T/.verif-stamp"
    flock -u 9
    exec 9>&-
}

case "$1" in
    build)
        shift
        for c in ${*:-$CRATES}; do [ -d "$c" ] && build "$c"; done
        ;;
    check)
        c=$(crate_of "$2") || exit 2
        build "$c"
        shift
        exec "$ROOT/target/$c/debug/$c" check "$@"
        ;;
    replay)
        p=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' "$2")
        c=$(crate_of "$p") || exit 2
        build "$c"
        exec "$ROOT/target/$c/debug/$c" replay "$(cd "$ROOT" && realpath "$2")"
        ;;
    list)
        for c in $CRATES; do [ -d "$c" ] && build "$c" && "$ROOT/target/$c/debug/$c" list; done
        ;;
    *) sed -n 2,5p "$0"; exit 2;;
esac
