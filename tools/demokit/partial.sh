#!/bin/bash
# Compiles demo.rs together with the modules of the repository (the current directory) that need
# no askar-crypto, in a scratch directory, and runs its tests. Exit 0: they pass.
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$D/Cargo.toml" "$D/Cargo.lock" "$D/demo.rs" "$T/"
sed "s#\"/repo/src#\"$R/src#" "$D/lib.rs" > "$T/lib.rs"
cd "$T"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings CARGO_PROFILE_DEV_DEBUG=0
cargo test --offline vp_demo -- --test-threads 4
