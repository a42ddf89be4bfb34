#!/bin/bash
# run.sh build            build the monitors against /repo's current working tree
# run.sh check ID [TIER]  build, then run the monitor of one property
# run.sh replay FILE      run the case of a violation again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=$here/target
export POMON_DIR=$here
export POMON_REPO=/repo

# cargo decides by mtime what to rebuild, which misses a file put back with an old one:
# when the contents of /repo differ from the last build, drop the library's fingerprints.
stale() {
    mkdir -p "$CARGO_TARGET_DIR"
    local now
    now=$(cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.sources.sha256" 2>/dev/null)" ]; then
        find "$CARGO_TARGET_DIR" -maxdepth 6 -type d -path '*/.fingerprint/poreader-*' -exec rm -rf {} + 2>/dev/null
        echo "$now" > "$CARGO_TARGET_DIR/.sources.sha256"
    fi
}

build() {
    (
        flock 9
        stale
        cd "$here/harness" || exit 3
        cargo build --offline --locked --quiet 2> "$CARGO_TARGET_DIR/build.log"
    ) 9> "$here/.build.lock" || { tail -60 "$CARGO_TARGET_DIR/build.log"; echo "INCONCLUSIVE: the monitors do not build against /repo"; exit 3; }
}

# pass NAME DIR CARGO-ARGS...: the quick streams of the property on another build of the same code.
# Sets $passes; ends the check if the pass finds a violation.
pass() {
    local name=$1 bin=$2; shift 2
    mkdir -p "$CARGO_TARGET_DIR"
    if ! ( flock 9; cd "$here/harness" && cargo "$@" --offline --locked --quiet 2> "$CARGO_TARGET_DIR/build.log" ) 9> "$here/.build.lock"; then
        passes="$passes; $name: did not build here, skipped"
        return
    fi
    local out rc
    out=$(VERIF_TIER=quick "$CARGO_TARGET_DIR/$bin" check "$id" 2>&1); rc=$?
    echo "[$name] $out"
    if [ $rc -ne 0 ]; then
        [ $rc -eq 1 ] && exit 1
        exit 3
    fi
    passes="$passes; $name: $(grep -o 'on [0-9]* cases' <<< "$out" | tail -1)"
}

case ${1:-} in
build)
    mkdir -p "$CARGO_TARGET_DIR"
    build
    ;;
check)
    id=$2
    [ $# -ge 3 ] && export VERIF_TIER=$3
    mkdir -p "$CARGO_TARGET_DIR"
    build
    passes=
    if [ "${VERIF_TIER:-quick}" = thorough ]; then
        pass "optimised build without overflow checks" release/pomon build --release
        export TSAN_OPTIONS="exitcode=66 halt_on_error=1" ASAN_OPTIONS="exitcode=66 detect_leaks=0"
        san() {
            RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=$2" CARGO_TARGET_DIR=$here/target/$2 \
                pass "$1" x86_64-unknown-linux-gnu/debug/pomon build -Zbuild-std --target x86_64-unknown-linux-gnu
        }
        # miri MODE SECONDS SEED: small workloads in the undefined-behaviour interpreter
        miri() {
            local out rc
            out=$(cd "$here/ub" && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$here/target/ub \
                MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$3" \
                timeout 1500 cargo miri run --offline --locked --quiet -- "$1" "$2" 2>&1); rc=$?
            if grep -q '^UB-FREE' <<< "$out"; then
                passes="$passes; Miri, seed $3: $(grep -o 'on [0-9]* cases' <<< "$out" | tail -1)"
            elif grep -q 'Undefined Behavior\|panicked at' <<< "$out"; then
                mkdir -p "$here/replay"
                echo "$out" > "$here/replay/$id-miri-$1.txt"
                echo "$out" | tail -40
                echo "VIOLATION property=$id replay=$here/replay/$id-miri-$1.txt"
                exit 1
            else
                passes="$passes; Miri: did not run here (status $rc), skipped"
            fi
        }
        case $id in
        C21) for s in 1 2 3 4; do miri threads 0 $s; done ;;
        C13) miri hostile 600 1 ;;
        esac
        case $id in
        C21) san ThreadSanitizer thread ;;
        C13) san AddressSanitizer address ;;
        esac
    fi
    POMON_PASSES=${passes#; } "$CARGO_TARGET_DIR/debug/pomon" check "$id"
    exit $?
    ;;
replay)
    mkdir -p "$CARGO_TARGET_DIR"
    build
    exec "$CARGO_TARGET_DIR/debug/pomon" replay "$2"
    ;;
*)
    sed -n 2,4p "$0"
    exit 2
    ;;
esac
