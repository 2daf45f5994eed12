#!/bin/bash
# checks/replay.sh FILE: reruns a replay file; exit 1 if it still fails.
HERE=$(cd "$(dirname "$0")/.." && pwd)
bash "$HERE/checks/build.sh" || exit 2
export VERIF_ROOT=$HERE
exec "$HERE/harness/target/release/webcheck" replay "$1"
