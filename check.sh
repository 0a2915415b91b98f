#!/bin/bash
# Usage: check.sh <property> <quick|thorough>
# Builds the simulator against /repo's current working tree and runs one check.
cd "$(dirname "$0")" || exit 2
root=$PWD
export CARGO_TARGET_DIR="$root/target" CARGO_NET_OFFLINE=true VERIF_ROOT="$root"
bin="$root/target/release/aldrin-sim"
build() { (cd sim && cargo build --release --offline "$@") >"$log" 2>&1; }
log=$(mktemp)
# The hooks only add a snapshot and other serial numbers. Do without them rather than give no answer.
if ! build --features hooks; then
    if ! build; then
        cat "$log" >&2
        rm -f "$log"
        echo "the simulator does not build against /repo" >&2
        exit 2
    fi
    echo "note: built without the verif-hooks feature"
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$bin" check "$1" "$2"
