#!/bin/bash
# Builds the jxl crate of the current directory with the demo's own hook files (hook_<module>.rs beside this
# script, compiled into the module of that name) in a scratch directory and runs its demo() function.
# Exit 0: demo() returned; nonzero: it panicked, hung or the library misbehaved.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
S=$(mktemp -d /tmp/jxldemo.XXXXXX)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/v/hooks" "$S/c/src"
for m in $(grep -rhoE '"/hooks/[a-z0-9_]+\.rs"' "$REPO/jxl/src" | sed -E 's#.*/hooks/([a-z0-9_]+)\.rs.*#\1#'); do
  : > "$S/v/hooks/$m.rs"
done
: > "$S/v/rt.rs"
for f in "$HERE"/hook_*.rs; do
  b=$(basename "$f"); cp "$f" "$S/v/hooks/${b#hook_}"
done
cat > "$S/c/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
jxl = { path = "$REPO/jxl" }
[profile.dev]
opt-level = 1
T
cp "$REPO/Cargo.lock" "$S/c/Cargo.lock"
cat > "$S/c/src/main.rs" <<'T'
extern crate jxl;
unsafe extern "Rust" { fn jxl_demo(); }
fn main() { unsafe { jxl_demo() } println!("demo: ok"); }
T
cd "$S/c"
export JXL_VERIF_DIR="$S/v" RUSTFLAGS="--cfg jxl_verif -Awarnings" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --quiet --offline --target-dir "$S/t"
timeout 120 "$S/t/debug/demo"
