#!/bin/bash
# Builds the harness against /repo's working tree, in a target directory of its own: the workspace's libraries have
# file names without a hash, so sharing /repo/target/debug would mix up artefacts built with different features.
# Prebuilt external dependencies of /repo/target/debug are copied over when there are any.
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=${IBCX_VERIF_TARGET:-/repo/target/verif}
src=/repo/target/debug dst=$CARGO_TARGET_DIR/debug
if [ ! -d "$dst/.fingerprint" ] && [ -d "$src/.fingerprint" ]; then
    mkdir -p "$dst/deps"
    cp -a "$src/build" "$dst/" 2>/dev/null
    find "$src/deps" -maxdepth 1 -type f \( -name 'lib*.rlib' -o -name 'lib*.rmeta' -o -name 'lib*.so' -o -name '*.d' \) ! -name '*ibcx*' -print0 | xargs -0 cp -a -t "$dst/deps" 2>/dev/null
    cp -a "$src/.fingerprint" "$dst/.fp" 2>/dev/null && find "$dst/.fp" -maxdepth 1 -name 'ibcx*' -exec rm -rf {} + && mv "$dst/.fp" "$dst/.fingerprint"
fi
cd "$(dirname "$0")/../harness" || exit 2
exec cargo build --offline --locked "$@"
