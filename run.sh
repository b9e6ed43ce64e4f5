#!/bin/bash
# Builds the harness against /repo's current working tree (only when it changed) and runs one check.
#   run.sh setup | run.sh <property> [quick|thorough] | run.sh replay <file> | run.sh list
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$PWD/target
stamp=target/built-from
now=$( (cd /repo && find src assets Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.template' \) -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$VERIF_DIR/harness" && find . -path ./target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
mkdir -p target
exec 9>target/build-lock
flock 9
if [ ! -x target/debug/s2check ] || [ "$(cat $stamp 2>/dev/null)" != "$now" ]; then
    rm -f "$VERIF_DIR/$stamp"
    # cargo decides by modification times, which a checkout does not move forward: build the crate anew
    (cd harness && cargo clean --offline -p s2protocol >/dev/null 2>&1; cargo build --offline >"$VERIF_DIR/target/build.log" 2>&1)
    if [ $? -ne 0 ]; then
        grep -A12 '^error' target/build.log | head -80
        echo "the harness does not build against /repo (see target/build.log)"
        exit 2
    fi
    echo "$now" >$stamp
fi
flock -u 9
exec 9>&-
[ "$1" = setup ] && exit 0
exec ./target/debug/s2check "$@"
