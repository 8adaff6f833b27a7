#!/bin/bash
# Builds the monitor against /repo's current working tree. Cargo decides by modification times, which
# copies need not preserve, so the crates are rebuilt whenever the content of their sources differs
# from that of the last build.
set -e
cd "$(dirname "$0")/../harness"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
target=target
mkdir -p "$target"
stamp=$( { find /repo/src src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml Cargo.toml; rustc -V; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$target/vmon.stamp" 2>/dev/null)" != "$stamp" ] || [ ! -x "$target/release/vmon" ]; then
    cargo clean --offline --release -p cmaes -p vmon >/dev/null 2>&1 || true
    cargo build --offline --release >"$target/build.log" 2>&1 || { tail -40 "$target/build.log" >&2; exit 2; }
    echo "$stamp" >"$target/vmon.stamp"
fi
