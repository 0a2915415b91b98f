#!/bin/bash
# Usage: replay.sh <file>: replays a violation exactly, against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
./check.sh build || exit 2
VERIF_ROOT="$PWD" exec "$PWD/target/release/aldrin-sim" replay "$1"
