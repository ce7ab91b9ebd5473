#!/bin/bash
# run.sh Cxx          builds what the check needs from /repo's working tree and runs it
# run.sh setup        builds everything once
# run.sh replay FILE  shows what the current tree does with a recorded input
# Ends with 0 (held), 1 (VIOLATION line printed) or another code (no answer).
set -u
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$PWD
export VERIF_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_INCREMENTAL RUSTC_WRAPPER
mkdir -p target evidence scratch replay

# cargo looks at file times only: make sure that other contents are always noticed
fresh() {
    local now
    now=$(cd /repo && { find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name Cargo.toml \) -print | LC_ALL=C sort | xargs sha256sum; } | sha256sum)
    if [ "$(cat target/source-hash 2>/dev/null)" != "$now" ]; then
        find "$VERIF_DIR/target" -maxdepth 5 -type d -path '*/.fingerprint/nrbf-*' -exec rm -rf {} + 2>/dev/null
        echo "$now" > target/source-hash
    fi
}

build() { # arguments of cargo build
    (cd harness && cargo build --offline -q "$@") || { echo "run.sh: the build failed: cargo build $*" >&2; exit 3; }
}

build_steps() {
    RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard" \
        build --release --features steps --target x86_64-unknown-linux-gnu --target-dir ../target/steps
}

probe() { # arguments of cargo build
    (cd probe && cargo build --offline -q "$@")
}

# the probe for each configuration of the crate
build_configurations() {
    local profile features
    for profile in dev plain release; do
        probe --profile $profile --target-dir ../target || { echo "run.sh: the build failed: $profile" >&2; exit 3; }
    done
    for profile in dev plain release; do
        # the same without serde has to build, too
        probe --profile $profile --no-default-features --features probe --target-dir ../target/noserde || export MON_BUILD_FAILED="without the feature serde"
    done
}

build_asan() {
    RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes" cargo +nightly build --offline -q --manifest-path probe/Cargo.toml --profile plain \
        --target x86_64-unknown-linux-gnu --target-dir target/asan || { echo "run.sh: the AddressSanitizer build failed" >&2; exit 3; }
}

build_tsan() {
    RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build --offline -q --manifest-path probe/Cargo.toml --profile plain \
        -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir target/tsan || { echo "run.sh: the ThreadSanitizer build failed" >&2; exit 3; }
}

build_miri() {
    : > scratch/empty
    ./miri.sh digest "$PWD/scratch/empty" > scratch/miri.log 2>&1 || { cat scratch/miri.log >&2; echo "run.sh: Miri does not run" >&2; exit 3; }
}

fresh
case "${1:-}" in
setup)
    build
    build --profile plain
    build --release
    build_steps
    build_configurations
    build_asan
    build_tsan
    build_miri
    ;;
replay)
    build --release
    exec target/release/mon replay "$2"
    ;;
C[0-9][0-9])
    case "$1" in
    C02)
        build_steps
        exec target/steps/x86_64-unknown-linux-gnu/release/mon check C02
        ;;
    C01) build; build --profile plain ;;
    C19) probe --release --target-dir ../target || exit 3; build_tsan ;;
    C20) build_configurations ;;
    C21) build_asan; build_miri ;;
    esac
    build --release
    exec target/release/mon check "$1"
    ;;
*)
    echo "usage: run.sh Cxx | run.sh replay FILE" >&2
    exit 2
    ;;
esac
