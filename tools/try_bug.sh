#!/bin/bash
# try_bug.sh ID...: in a scratch copy of /repo confirm for each seeded change: applies, builds, stable tests pass,
# demonstration passes without and fails with it.
S=/tmp/scratch-repo
here=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
if [ ! -d $S ]; then mkdir $S && rsync -a --exclude target/verif /repo/ $S/ || cp -a /repo/. $S/; fi
git -C $S fetch -q /repo HEAD 2>/dev/null && git -C $S reset -q --hard FETCH_HEAD
for id in "$@"; do
    d=$here/seeded/$id
    git -C $S checkout -q -- .
    if [ -z "$SKIP_CLEAN" ]; then (cd $S && bash "$d/demo.sh" >/tmp/try.log 2>&1) || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/try.log; continue; }; fi
    git -C $S apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    (cd $S && cargo build --workspace --locked --offline >/tmp/try.log 2>&1 && cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-fail-fast --locked --offline >>/tmp/try.log 2>&1)
    rc=$?; f=$(grep -c '\.\.\. FAILED' /tmp/try.log)
    if [ $rc -ne 0 ]; then echo "$id: build or tests fail (rc $rc, $f failed)"; grep -E '^error|FAILED' /tmp/try.log | head; git -C $S checkout -q -- .; continue; fi
    (cd $S && bash "$d/demo.sh" >/tmp/try.log 2>&1); rc=$?
    git -C $S checkout -q -- .
    if [ $rc -eq 1 ]; then echo "$id: ok ($(grep -v '^$' /tmp/try.log | tail -2 | tr '\n' ' ' | cut -c1-200))"; else echo "$id: DEMO rc=$rc WITH PATCH"; tail -5 /tmp/try.log; fi
done
