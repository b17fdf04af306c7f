#!/bin/bash
# usage: check.sh <property> [quick|thorough]   (run in /verif)
# Builds what the check needs from /repo's current working tree, then runs it.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here"
id="$1"; export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true
source ./build.sh
build_podo; build_shim
bin="$CLI_BIN"
case "$id" in
  C02) if build_hooked save; then bin="$SAVE_BIN"; fi ;;
  C16) if build_hooked clone; then bin="$CLONE_BIN"; fi ;;
  C01|C03|C04|C05|C06|C14|C22|C23) if build_hooked inproc; then bin="$INPROC_BIN"; fi ;;
  *) build_cli ;;
esac
exec "$bin" "$id"
