#!/bin/bash
# Generates Rust code for demo.prot with the CLI built in the current tree, and runs main.rs over it.
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
D=$(cd "$(dirname "$0")" && pwd)
CLI=$PWD/cli/target/release/clibri
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/Cargo.toml" "$D/Cargo.lock" "$W/"
cp "$D/main.rs" "$W/src/main.rs"
cp "$D/demo.prot" "$W/demo.prot"
cd "$W" || exit 2
"$CLI" -s demo.prot -rs src/protocol.rs -o -e > gen.log 2>&1
tail -n 1 gen.log | grep -q '^\[OK\]' || { cat gen.log; exit 1; }
timeout 250 cargo run --offline --locked -q 2> run.log || { tail -n 20 run.log; exit 1; }
