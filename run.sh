#!/bin/bash
# run.sh <property> [quick|thorough] - rebuilds the harness from /repo's working tree and decides one property.
# exit 0: held on everything explored; 1: violation (VIOLATION line printed); 2: no answer (build failure, timeout)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
rm -f "$here/evidence/$id.json"
tmp=$(mktemp -d /tmp/ibcx-verif.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
bin=/repo/target/verif/debug/ibcx-verif
# two checks started at once must not disturb each other's build
exec 9>"/tmp/ibcx-verif-build.lock"; flock 9
if ! bash "$here/tools/build.sh" >"$tmp/build.log" 2>&1; then
    tail -n 60 "$tmp/build.log" >&2
    echo "$id: the harness does not build against /repo's working tree" >&2
    exit 2
fi
cp "$bin" "$tmp/check" || exit 2
flock -u 9
limit=840; [ "$tier" = thorough ] && limit=7200
timeout -k 10 "$limit" "$tmp/check" check "$id" --tier "$tier" --seed "$seed" --evidence "$here/evidence/$id.json" \
    --replays "$here/replays" --known "$here/known-findings.txt" --report "$tmp/report" >/dev/null 2>"$tmp/err"
rc=$?
[ -f "$tmp/report" ] && cat "$tmp/report"
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then tail -n 30 "$tmp/err" >&2; echo "$id: no answer (exit status $rc)" >&2; exit 2; fi
if [ $rc -eq 1 ] && ! grep -q "^VIOLATION property=$id " "$tmp/report" 2>/dev/null; then tail -n 30 "$tmp/err" >&2; exit 2; fi
exit $rc
