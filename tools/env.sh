# Settings shared by setup.sh, check.sh and sanitize.sh.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR=$here/target
if [ "${VERIF_TIER:-quick}" = thorough ]; then RUN_LIMIT=5400; else RUN_LIMIT=600; fi
# content hash of one crate's sources
src_hash() {
  ( cd "/repo/proof_of_$1" && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32 )
}
# whether a monitor ended by a fault of the code in it: a crash the code under
# test brought about, and not for want of memory
died() {
  case $1 in
    132|134|135|136|139) ;;
    *) return 1 ;;
  esac
  ! grep -qE 'memory allocation of .* failed|Cannot allocate memory|failed to spawn thread|Resource temporarily unavailable' "$2"
}
# crash_violation ID TIER STDERR WHAT STATUS
crash_violation() {
  mkdir -p "$VERIF_EVIDENCE/replay"
  local replay=$VERIF_EVIDENCE/replay/$1-crash.txt
  { echo "# VERIF_SEED=$VERIF_SEED bash $here/check.sh $1 $2"; echo "# $4 was ended by signal $(($5 - 128)) while running the code under test"; tail -n 100 "$3"; } >"$replay"
  echo "$4 was ended by signal $(($5 - 128))"
  echo "VIOLATION property=$1 replay=$replay"
}
