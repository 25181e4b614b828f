#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild the explorer against the current
# /repo and run one check.
cd /verif || exit 2
source /verif/env.sh
/verif/build.sh || { echo "build failed"; exit 2; }
exec /verif/target/release/mc check "$1" "${2:-quick}"
