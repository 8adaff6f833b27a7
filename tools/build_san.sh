#!/bin/bash
# Builds the workloads of C23 against /repo's current working tree: plain, with ThreadSanitizer,
# AddressSanitizer and MemorySanitizer (instrumenting the standard library as well), and for Miri.
cd "$(dirname "$0")/../san" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
T=x86_64-unknown-linux-gnu
mkdir -p target
stamp=$( { find /repo/src src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml Cargo.toml; rustc -V; rustc +nightly -V; } | sha256sum | cut -d' ' -f1)
one() { # flavour command...
    local k=$1; shift
    [ "$(cat "target/$k.stamp" 2>/dev/null)" = "$stamp" ] && return 0
    rm -f "target/$k.stamp"
    # Modification times need not be preserved by copies
    find "target/$k" -type d -path '*/.fingerprint/*' \( -name 'cmaes-*' -o -name 'san-*' \) -prune -exec rm -rf {} + 2>/dev/null
    if CARGO_TARGET_DIR=target/$k "$@" >"target/$k.log" 2>&1; then
        echo "$stamp" >"target/$k.stamp"
    else
        tail -15 "target/$k.log" >&2
        return 1
    fi
}
pids=()
one plain cargo build --offline --release --features plot & pids+=($!)
RUSTFLAGS="-Zsanitizer=thread" one thread cargo +nightly build --offline --release -Zbuild-std --target $T & pids+=($!)
RUSTFLAGS="-Zsanitizer=address" one address cargo +nightly build --offline --release -Zbuild-std --target $T --features plot & pids+=($!)
RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins" one memory cargo +nightly build --offline --release -Zbuild-std --target $T & pids+=($!)
# Miri interprets; a run without any case compiles
MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-deterministic-floats" one miri cargo +nightly miri run --offline -- none 1 0 tiny & pids+=($!)
r=0
for p in "${pids[@]}"; do wait "$p" || r=2; done
exit $r
