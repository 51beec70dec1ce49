#!/bin/bash
# Runs the scenario in main.rs against the contracts of the working directory (a checkout of the repository):
# exit 0 when they behave as they should, non-zero otherwise.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/crate/src" "$tmp/target/debug/deps"
cp "$here"/*.rs "$tmp/crate/src/" && cp "$here/Cargo.lock" "$tmp/crate/" || exit 2
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" >"$tmp/crate/Cargo.toml" || exit 2
# reuse the external dependencies the repository's build left behind
src=$repo/target/debug dst=$tmp/target/debug
if [ -d "$src/.fingerprint" ]; then
    cp -a "$src/build" "$dst/" 2>/dev/null
    find "$src/deps" -maxdepth 1 -type f \( -name 'lib*.rlib' -o -name 'lib*.rmeta' -o -name 'lib*.so' -o -name '*.d' \) ! -name '*ibcx*' -print0 | xargs -0 cp -a -t "$dst/deps" 2>/dev/null
    cp -a "$src/.fingerprint" "$dst/" 2>/dev/null
    find "$dst/.fingerprint" -maxdepth 1 -name '*ibcx*' -exec rm -rf {} +
fi
export CARGO_TARGET_DIR=$tmp/target
cd "$tmp/crate" || exit 2
cargo build --offline >"$tmp/build.log" 2>&1 || { tail -n 40 "$tmp/build.log" >&2; exit 2; }
RUST_BACKTRACE=0 "$tmp/target/debug/demo" 2>"$tmp/err" || { RUST_BACKTRACE=0 grep -v "^ \|^stack\|^note" "$tmp/err" | tail -n 8 >&2; exit 1; }
