#!/bin/bash
# Builds the explorer from /repo's working tree.  Staleness is decided by file
# contents, never by modification times.
source /verif/env.sh
cd /verif/mc || exit 2
mkdir -p /verif/target
STAMP=$( { find /repo -path /repo/target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum; find /verif/mc -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
if [ "$(cat /verif/target/.stamp 2>/dev/null)" = "$STAMP" ] && [ -x /verif/target/release/mc ]; then exit 0; fi
if [ -d /verif/target/release ]; then
  cargo clean --release -q -p mc -p controller -p liquidity_layer -p price_aggregator -p flash-mock \
    -p common-structs -p common-math -p common-rates -p common-constants -p common-errors -p common-proxies -p common-events >/verif/target/clean.log 2>&1 || true
fi
if cargo build --release --locked --offline >/verif/target/build.log 2>&1; then
  echo "$STAMP" > /verif/target/.stamp; exit 0
fi
grep -E '^error' -A8 /verif/target/build.log | head -40
exit 2
