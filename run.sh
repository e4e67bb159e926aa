#!/bin/bash
# run.sh ID [quick|thorough] [args...]  builds and runs the check of one property
set -uo pipefail
export PBT_HOME=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
if [ "${1:-}" = quick ] || [ "${1:-}" = thorough ]; then export VERIF_TIER=$1; shift; fi
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
opts=()
case $ID in C10|C22|C24|C06|C07) opts+=(-c);; esac
PBT_BIN=$(bash "$PBT_HOME/tools/build.sh" "${opts[@]}" "$ID") || exit 2
export PBT_BIN
case $ID in
 C24|C22) PBT_ASAN=$(bash "$PBT_HOME/tools/build.sh" -v asan -c "$ID") || exit 2; export PBT_ASAN;;
 C06) PBT_TSAN=$(bash "$PBT_HOME/tools/build.sh" -v tsan -c "$ID") || exit 2; export PBT_TSAN;;
esac
cd "$PBT_HOME"
exec "$PBT_BIN/$ID" "$@"
