#!/bin/bash
# Warm the build caches; every check rebuilds from /repo's working tree by itself.
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
mkdir -p evidence build
(cd harness && cargo build --offline --quiet --bin replay) || true
(cd noalloc && cargo build --offline --quiet) || true
python3 lib/vx.py --warm || true
exit 0
