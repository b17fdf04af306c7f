#!/bin/bash
# Builds everything once, so that each check afterwards only rebuilds what changed.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"; cd "$here"
export CARGO_NET_OFFLINE=true
source ./build.sh
build_podo; build_shim
for b in inproc save clone; do build_hooked $b; done
build_cli
