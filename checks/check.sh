#!/bin/bash
# checks/check.sh ID [quick|thorough]: runs one property's check.
HERE=$(cd "$(dirname "$0")/.." && pwd)
bash "$HERE/checks/build.sh" || exit 2
export VERIF_ROOT=$HERE
exec "$HERE/harness/target/release/webcheck" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
