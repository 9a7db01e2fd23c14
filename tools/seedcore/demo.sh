#!/bin/bash
# Builds a small program against the current crates in a scratch folder and runs it (chumsky, which only its repository
# provides, is replaced by the small one beside this file).
set -e
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src" "$scratch/.cargo" "$scratch/vendored"
cp -r "$here/chumsky" "$scratch/vendored/chumsky"
printf '{"files":{}}' > "$scratch/vendored/chumsky/.cargo-checksum.json"
cp "$here/demo.rs" "$scratch/src/main.rs"
cp "$here/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/.cargo/config.toml" <<EOF
[source."git+https://github.com/zesterer/chumsky.git"]
git = "https://github.com/zesterer/chumsky.git"
replace-with = "stubs"
[source.stubs]
directory = "vendored"
EOF
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
input_tree = { path = "$PWD/aftermath-core/input_tree" }
caret = { path = "$PWD/aftermath-core/caret" }
parser = { path = "$PWD/aftermath-core/parser" }
serialization = { path = "$PWD/aftermath-core/serialization" }
serde_json = "1"
EOF
cd "$scratch"
export CARGO_TARGET_DIR="$scratch/target" CARGO_NET_OFFLINE=true
cargo +1.85.1 run --offline --quiet
