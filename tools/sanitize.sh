#!/usr/bin/env bash
# sanitize.sh <quick|thorough|build>: C23. Builds the workloads with the nightly
# compiler's ThreadSanitizer and AddressSanitizer, the standard library included,
# and runs them, and the ordinary build under valgrind's memcheck; a report of
# any of them is the violation.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
tier=${1:-quick}
id=C23
if [ "$tier" != build ]; then export VERIF_TIER=$tier; fi
export VERIF_SEED=${VERIF_SEED:-1}
. "$here/tools/env.sh"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
triple=x86_64-unknown-linux-gnu

work=$(mktemp -d /tmp/verif-scratch.XXXXXX)
trap 'rm -rf -- "$work"' EXIT
export VERIF_SCRATCH=$work VERIF_EVIDENCE=$here/evidence
mkdir -p "$VERIF_EVIDENCE/replay"

# crate sanitizer part
runs="storage:thread:tsan storage:address:asan space:address:asan-space space:thread:tsan-space"
plain="storage:memcheck:memcheck space:memcheck:memcheck-space"
for x in $plain; do
  IFS=: read -r crate san part <<<"$x"
  if ! RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu VERIF_SRC_HASH=$(src_hash "$crate") \
      cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" -p "$crate-mon" --bin "$crate-c23" >"$work/build.log" 2>&1; then
    tail -60 "$work/build.log" >&2
    echo "check $id: the workload does not build" >&2
    exit 2
  fi
done
for x in $runs; do
  IFS=: read -r crate san part <<<"$x"
  if ! RUSTFLAGS="-Zsanitizer=$san" VERIF_SRC_HASH=$(src_hash "$crate") CARGO_TARGET_DIR=$here/target-san/$san \
      cargo build --offline --locked -Zbuild-std --target $triple --manifest-path "$here/harness/Cargo.toml" \
      -p "$crate-mon" --bin "$crate-c23" >"$work/build.log" 2>&1; then
    tail -60 "$work/build.log" >&2
    echo "check $id: the workload does not build with -Zsanitizer=$san" >&2
    exit 2
  fi
done
[ "$tier" = build ] && exit 0

rm -f "$VERIF_EVIDENCE/$id.json" "$VERIF_EVIDENCE/$id".*.part.json
# an instrumented frame is many times the size of an ordinary one, and the
# recursive Legendre symbol goes several hundred deep
export RUST_MIN_STACK=67108864
export TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_thread_leaks=1 second_deadlock_stack=1"
export ASAN_OPTIONS="halt_on_error=1 exitcode=66 detect_leaks=0 detect_stack_use_after_return=1"
for x in $runs; do
  IFS=: read -r crate san part <<<"$x"
  ( cd "$work" && VERIF_PART=$part timeout --kill-after=10 "$RUN_LIMIT" "$here/target-san/$san/$triple/debug/$crate-c23" >"$work/$part.out" 2>"$work/$part.err"; echo $? >"$work/$part.rc" ) &
done
for x in $plain; do
  IFS=: read -r crate san part <<<"$x"
  ( cd "$work" && VERIF_PART=$part timeout --kill-after=10 "$RUN_LIMIT" valgrind -q --error-exitcode=66 --exit-on-first-error=yes --fair-sched=try \
      "$CARGO_TARGET_DIR/debug/$crate-c23" >"$work/$part.out" 2>"$work/$part.err"; echo $? >"$work/$part.rc" ) &
done
wait
status=0
for x in $runs $plain; do
  IFS=: read -r crate san part <<<"$x"
  rc=$(cat "$work/$part.rc")
  if [ "$san" = memcheck ] && [ "$rc" -eq 66 ] && grep -qE '==[0-9]+== +(at|by) 0x' "$work/$part.err"; then
    replay=$VERIF_EVIDENCE/replay/$id-$part.txt
    { echo "# VERIF_SEED=$VERIF_SEED bash $here/check.sh $id $tier"; cat "$work/$part.err"; } >"$replay"
    grep -m3 -E '^==' "$work/$part.err"
    echo "VIOLATION property=$id replay=$replay"
    status=1
  elif grep -qE '(ThreadSanitizer|AddressSanitizer): ' "$work/$part.err" && [ "$rc" -ne 0 ] && ! grep -qE 'FATAL: (Thread|Address)Sanitizer: (unexpected memory mapping|CHECK failed)' "$work/$part.err"; then
    replay=$VERIF_EVIDENCE/replay/$id-$part.txt
    { echo "# VERIF_SEED=$VERIF_SEED bash $here/check.sh $id $tier"; cat "$work/$part.err"; } >"$replay"
    grep -m3 -E 'Sanitizer' "$work/$part.err"
    echo "VIOLATION property=$id replay=$replay"
    status=1
  elif died "$rc" "$work/$part.err"; then
    crash_violation "$id" "$tier" "$work/$part.err" "$part" "$rc"
    status=1
  elif [ "$rc" -eq 1 ]; then
    cat "$work/$part.out"
    status=1
  elif [ "$rc" -ne 0 ]; then
    tail -20 "$work/$part.err" >&2
    echo "check $id: the $part workload ended with $rc" >&2
    [ $status -eq 1 ] || status=2
  else
    cat "$work/$part.out"
  fi
done
python3 "$here/tools/merge_evidence.py" "$VERIF_EVIDENCE" "$id" || [ $status -ne 0 ] || status=2
exit $status
