#!/bin/bash
# demo.rs must be refused by the compiler (demo_ok.rs, its well-behaved twin, must not).
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pdf-writer = { path = "$repo" }
[workspace]
EOT
cd "$t"
export CARGO_TARGET_DIR="$t/target"
cp "$here/demo_ok.rs" src/main.rs
cargo check --offline --quiet || exit 2
cp "$here/demo.rs" src/main.rs
if cargo check --offline --quiet; then
  echo "a program that breaks the property compiles"
  exit 1
fi
exit 0
