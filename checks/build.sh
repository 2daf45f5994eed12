#!/bin/bash
# Builds the harness against /repo's current working tree; prints nothing on
# success.  cargo decides by modification time, so a changed tree whose files
# carry old times is detected by content and rebuilt.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
cd "$HERE/harness" || exit 2
mkdir -p target
exec 9>target/.lock
flock 9
sum=$( { find /repo/src "$HERE/harness/src" -type f | LC_ALL=C sort | xargs sha256sum; sha256sum /repo/Cargo.toml "$HERE/harness/Cargo.toml" "$HERE/harness/Cargo.lock"; } | sha256sum | cut -d' ' -f1)
bin=target/release/webcheck
if [ -x "$bin" ] && [ "$(cat target/.stamp 2>/dev/null)" = "$sum" ]; then exit 0; fi
rm -f target/.stamp
if [ -d target/release ]; then
    cargo clean --offline --release -p webparse -p webcheck >/dev/null 2>&1
fi
if ! cargo build --release --offline >target/build.log 2>&1; then
    cat target/build.log >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
echo "$sum" >target/.stamp
