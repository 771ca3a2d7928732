#!/bin/bash
# Builds the library from the current directory (with functional stand-ins for the dependencies that are not
# available offline) together with main.rs, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/hbdemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -r "$here/stubs" "$w/stubs"
mkdir "$w/crate"
cp "$here/Cargo.toml.in" "$w/crate/Cargo.toml"
cp "$here/Cargo.lock" "$w/crate/Cargo.lock"
cp "$here/main.rs" "$w/crate/main.rs"
cp "$repo/build.rs" "$w/crate/build.rs"
cp -r "$repo/src" "$w/crate/src"
cd "$w/crate" || exit 3
export CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never TMPDIR="$w"
cargo build --offline -q --bin demo 2>"$w/err" || { tail -30 "$w/err"; exit 3; }
timeout 60 "$w/target/debug/demo"
rc=$?
echo "demo exit: $rc"
exit $rc
