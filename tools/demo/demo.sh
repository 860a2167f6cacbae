#!/bin/bash
# Run with cwd at the repository: exit 0 if the property holds in this scenario. All output stays in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
feats='@FEATS@'; tool='@TOOL@'
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\ndaab = { path = "%s", features = [%s] }\n[profile.dev]\ndebug = 0\n' "$repo" "$feats" > "$d/Cargo.toml"
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTUP_TOOLCHAIN=$tool cargo build --offline --quiet || exit 3
timeout 60 "$d/target/debug/demo"
