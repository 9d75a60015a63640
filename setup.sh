#!/bin/bash
# Checks that the tools are there and builds the drivers once, so that a broken
# installation is reported before the first check.
set -e
cd "$(dirname "$0")"
mkdir -p out evidence replays
java -version >/dev/null 2>&1
for h in harness harness_rt; do
    (cd $h; . ./env.sh; cargo build --offline --locked)
done
