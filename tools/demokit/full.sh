#!/bin/bash
# Runs demo.rs as a program against the whole crate of the repository (the current directory), with
# the askar-crypto stand-in that lies beside this file. Exit 0: the demonstration passes.
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/d/src" "$T/d/.cargo"
cp -r "$D/vendor" "$T/vendor"
cat "$D/kit.rs" "$D/demo.rs" > "$T/d/src/main.rs"; cp "$D/Cargo.lock" "$T/d/"; cp "$D/cargo-config.toml" "$T/d/.cargo/config.toml"
sed "s#\"/repo\"#\"$R\"#" "$D/Cargo.toml" > "$T/d/Cargo.toml"
cd "$T/d"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline --locked -q
"$T/target/debug/harness"
