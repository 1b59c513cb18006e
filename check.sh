#!/usr/bin/env bash
# check.sh <property id> <quick|thorough>
# Builds the monitor(s) of one property from /repo's working tree and runs them.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-quick}
export VERIF_TIER=$tier
export VERIF_SEED=${VERIF_SEED:-1}
. "$here/tools/env.sh"

case $id in
  C01|C02|C03|C04|C05|C06|C07|C08|C09|C24) parts="space:" ;;
  C10|C19|C21|C25|C26|C27|C29|C30) parts="space:space storage:storage" ;;
  C11|C12|C13|C14|C15|C16|C17|C18|C20|C22) parts="storage:" ;;
  C28) parts="scripts:" ;;
  C23) exec bash "$here/tools/sanitize.sh" "$tier" ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac

export VERIF_EVIDENCE=$here/evidence
mkdir -p "$VERIF_EVIDENCE"
rm -f "$VERIF_EVIDENCE/$id.json" "$VERIF_EVIDENCE/$id".*.part.json
VERIF_SCRATCH=$(mktemp -d /tmp/verif-scratch.XXXXXX)
export VERIF_SCRATCH
trap 'rm -rf -- "$VERIF_SCRATCH"' EXIT

low=$(echo "$id" | tr A-Z a-z)
status=0
for p in $parts; do
  crate=${p%%:*}; part=${p#*:}
  bin=$low
  log=$VERIF_SCRATCH/build.log
  if [ "$crate" = scripts ]; then
    ( cd "$VERIF_SCRATCH" && timeout --kill-after=10 "$RUN_LIMIT" python3 "$here/harness/scripts/$bin.py" ) || status=$?
    continue
  fi
  if ! VERIF_SRC_HASH=$(src_hash "$crate") cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" -p "$crate-mon" --bin "$crate-$bin" >"$log" 2>&1; then
    tail -60 "$log" >&2
    echo "check $id: the monitor does not build against /repo" >&2
    exit 2
  fi
  err=$VERIF_SCRATCH/stderr.log
  ( cd "$VERIF_SCRATCH" && timeout --kill-after=10 "$RUN_LIMIT" "$CARGO_TARGET_DIR/debug/$crate-$bin" 2>"$err" ) || status=$?
  tail -n 200 "$err" >&2
  if died "$status" "$err"; then
    crash_violation "$id" "$tier" "$err" "$crate-$bin" "$status"
    status=1
  fi
  if [ $status -ne 0 ]; then break; fi
done
if [ "$parts" != "${parts% *}" ]; then
  python3 "$here/tools/merge_evidence.py" "$VERIF_EVIDENCE" "$id" || [ $status -ne 0 ] || status=2
fi
exit $status
