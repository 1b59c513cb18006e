#!/usr/bin/env bash
# Pre-builds the monitors, so that a check only has to rebuild what depends on
# /repo's sources. Every check also builds from nothing on its own.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
set -e
VERIF_SRC_HASH=$(src_hash space) cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" -p space-mon 2>&1 | tail -2
VERIF_SRC_HASH=$(src_hash storage) cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" -p storage-mon 2>&1 | tail -2
bash "$here/tools/sanitize.sh" build
