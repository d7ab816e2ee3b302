#!/bin/bash
# Builds main.rs (beside this file) against the tree in the current directory and runs it in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d /tmp/tsv-demo.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/crate/src" "$scratch/data"
cp "$here/main.rs" "$scratch/crate/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/crate/Cargo.lock" 2>/dev/null
cat > "$scratch/crate/Cargo.toml" <<T
[package]
name = "tsv-demo"
version = "0.0.0"
edition = "2021"
[dependencies]
terminus-store = { path = "$repo" }
tdb-succinct = "*"
tokio = { version = "1", features = ["full"] }
bytes = "1"
futures = "0.3"
async-trait = "0.1"
[workspace]
T
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR="$repo/target"
if ! (cd "$scratch/crate" && cargo build --offline >"$scratch/build.log" 2>&1); then tail -30 "$scratch/build.log"; exit 3; fi
mv "$repo/target/debug/tsv-demo" "$scratch/tsv-demo" || exit 3
cd "$scratch/data" && timeout 120 "$scratch/tsv-demo" "$scratch/data"
