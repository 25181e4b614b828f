#!/bin/bash
# developer build: errors only
source /verif/env.sh; cd /verif/mc
RUSTFLAGS="-Awarnings" true
cargo build --release 2>&1 | grep -E "^error" -A12 | head -${1:-60}
