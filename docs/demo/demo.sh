#!/bin/bash
# Run with the repository as working directory, after its build.
# Exit 0: the behaviour is right.  Anything else: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D"/demo/*.rs "$W/src/" && cp "$D/demo/Cargo.lock" "$W/"
sed "s#@REPO@#$PWD#" "$D/demo/Cargo.toml.in" > "$W/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}"
cd "$W" || exit 3
cargo build --offline --locked >build.log 2>&1 || { tail -40 build.log; exit 4; }
exec 3>&1
"$CARGO_TARGET_DIR/debug/demo" >/dev/null
