#!/bin/bash
# Runs one saved case again: replay.sh replays/FILE.json
# Exit 0: the case passes; 1: it fails (and why is printed).
set -eu
file=$(readlink -f "${1:?usage: replay.sh FILE}")
cd "$(dirname "$(readlink -f "$0")")"
dir=harness bin=chalamet-verif profile=release
grep -q '"variant": "unpadded' "$file" && dir=harness-nopad bin=chalamet-verif-nopad
grep -q '"variant": ".* plain"' "$file" && profile=plain
(cd $dir && CARGO_TARGET_DIR="$PWD/target" cargo build --offline --profile $profile 2>&1 | tail -1)
exec "$dir/target/$profile/$bin" --replay "$file" --root "$PWD"
