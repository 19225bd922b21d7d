#!/bin/bash
# run.sh build | run.sh <PROPERTY> quick|thorough | run.sh replay <file>
# Builds the harness from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export CARGO_NET_OFFLINE=true CI=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$ROOT/harness/target" AFCHECK_ROOT="$ROOT"
LOG="$ROOT/harness/build.log"
build() { (cd harness && timeout -k 5 "$1" cargo build --release --locked --quiet "${@:2}") > "$LOG" 2>&1; }
# The first build compiles everything, gmp and mpfr included; setup_cmd has made it before a check runs.
LIMIT=400; [ "$1" = build ] && LIMIT=1500
MACROS=yes
if ! build $LIMIT; then
    # expr! runs the library inside rustc: a library that panics, crashes or hangs there breaks this
    # build and no other.
    cp "$LOG" "$LOG.macros"
    MACROS=no
    if ! build 400 --no-default-features; then
        cat "$LOG" >&2
        echo "run.sh: the harness does not build" >&2
        exit 2
    fi
    echo "run.sh: built without expr!, which does not compile: see $LOG.macros" >&2
fi
BIN="$CARGO_TARGET_DIR/release/afcheck"
# C29: the same library compiled for 32-bit x86, with a standard library built from its sources.
LOG32="$ROOT/harness/build.log.32"
build32() {
    (cd harness32 && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$ROOT/harness32/target" \
        CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER="$ROOT/harness32/link/i686-gcc" \
        timeout -k 5 "$1" cargo build -Zbuild-std=std,panic_unwind --target i686-unknown-linux-gnu --release --locked --quiet) > "$LOG32" 2>&1
}
need32() {
    build32 400 && return
    if grep -A1 -E '^error(\[|:)' "$LOG32" | grep -q '^ *--> .*astro-float-num/src/'; then
        mkdir -p replays
        R="replays/C29-does-not-compile.txt"
        { echo "property=C29"; echo "the library does not compile for 32-bit x86"; grep -A12 '^error' "$LOG32" | head -100; } > "$R"
        echo "C29: the library compiles for 64-bit machines but not for 32-bit machines"
        echo "VIOLATION property=C29 replay=$R"
        exit 1
    fi
    tail -50 "$LOG32" >&2
    echo "run.sh: the 32-bit server does not build" >&2
    exit 2
}
no_expr() {
    mkdir -p replays
    R="replays/$1-expr-does-not-compile.txt"
    { echo "property=$1"; echo "compiling the expressions of harness/src/props/misc.rs with expr! fails"; tail -c 4000 "$LOG.macros"; } > "$R"
    echo "$1: valid expressions no longer compile with expr!"
    echo "VIOLATION property=$1 replay=$R"
    exit 1
}
P="$1"
[ "$1" = replay ] && case "$2" in *-expr-does-not-compile.txt) P=$(sed -n 's/^property=//p' "$2") ;; esac
if [ "$MACROS" = no ]; then case "$P" in C21|C22) no_expr "$P" ;; esac; fi
if [ "$1" = build ]; then
    build32 900 || { tail -5 "$LOG32" >&2; echo "run.sh: the 32-bit server does not build" >&2; }
    exit 0
fi
[ "$P" = replay ] && grep -q '"C29"' "$2" 2>/dev/null && need32
[ "$P" = C29 ] && need32
case "$1" in
    replay)
        case "$2" in *C29-does-not-compile.txt) need32; echo "C29: the library compiles for 32-bit machines"; exit 0 ;; esac
        [ "$P" != replay ] && { echo "$P: valid expressions compile with expr!"; exit 0; }
        exec "$BIN" replay "$2" ;;
    *) exec "$BIN" run "$1" "${2:-quick}" ;;
esac
