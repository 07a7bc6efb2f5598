#!/bin/bash
# Builds the checks from the committed files, offline.
set -eu
cd "$(dirname "$(readlink -f "$0")")"
for d in harness harness-nopad; do
  (cd "$d" && CARGO_TARGET_DIR="$PWD/target" cargo build --offline --release)
done
mkdir -p evidence replays
