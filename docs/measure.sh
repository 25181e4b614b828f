#!/bin/bash
# measure.sh <tier> <ids...>: time and memory of checks, from a private copy of the built explorer
T=$1; shift
cp /verif/target/release/mc /tmp/mc-measure.$$
for i in "$@"; do /usr/bin/time -f "## $i rss %M KB %e s" timeout 2400 /tmp/mc-measure.$$ check $i $T; done
/bin/rm /tmp/mc-measure.$$
