#!/bin/bash
# builds the small program beside this file against the crates of the current tree and runs it:
# exit 0 when the described behaviour holds, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
repo=$(pwd)
w=$(mktemp -d /tmp/seeded-demo.XXXXXX) || exit 9
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here"/main.rs "$here"/kit.rs "$w/src/" && cp "$repo/Cargo.lock" "$w/" || exit 9
sed "s#/repo/#$repo/#" "$here/manifest.txt" > "$w/Cargo.toml"
cd "$w" || exit 9
CARGO_TARGET_DIR="$repo/target" cargo build --offline -q 2>"$w/err" || { cat "$w/err"; exit 8; }
timeout 120 "$repo/target/debug/seeded-demo"
