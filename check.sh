#!/bin/bash
# check.sh P## [--replay FILE] [--tier quick|thorough] [--seed N] [--case LEG:IDX]
# Builds the harness with /repo's current working tree and decides one property by running it.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
REPO="${VERIF_REPO:-/repo}" # where the tools are built from; the harness depends on ../repo
ID="${1:?property}"; shift
TIER="${VERIF_TIER:-quick}"
prev=
for a in "$@"; do [ "$prev" = --tier ] && TIER="$a"; prev="$a"; done
LOG="$VERIF_DIR/target/build-$ID.log"
mkdir -p target evidence replays
mkdir -p "$VERIF_DIR/target/tmp"; export TMPDIR="$VERIF_DIR/target/tmp"

FEATURES=
[ "$ID" = P24 ] && FEATURES="--features sqlite"
[ "$ID" = P27 ] && FEATURES="--features threads"

# With the hooks; without them where the hooks' own file does not fit the tree any more.
build() { # target-dir flags... ; sets HOOKS
  local dir="$1"; shift
  HOOKS="--cfg osmio_verif"
  if ! RUSTFLAGS="$HOOKS $SANFLAGS" cargo $TOOLCHAIN build --offline --manifest-path harness/Cargo.toml --target-dir "$dir" $FEATURES "$@" >"$LOG" 2>&1; then
    HOOKS=""
    RUSTFLAGS="$SANFLAGS" cargo $TOOLCHAIN build --offline --manifest-path harness/Cargo.toml --target-dir "$dir" $FEATURES "$@" >"$LOG" 2>&1 || return 1
  fi
}

case "$ID" in
P24|P25|P36)
  [ -e "$REPO/Cargo.lock" ] || cp /opt/vp/Cargo.lock.saved "$REPO/Cargo.lock" # git ignores it
  if ! cargo build --offline --manifest-path "$REPO/Cargo.toml" --all-features --bins --target-dir "$VERIF_DIR/target/repo" >"$LOG" 2>&1; then
    grep -m5 -A6 -E '^error' "$LOG"; echo "INCONCLUSIVE property=$ID: the tools do not build"; exit 2
  fi
  export VERIF_BINS="$VERIF_DIR/target/repo/debug"
  ;;
esac

SANFLAGS= TOOLCHAIN=
if ! build target/harness; then
  if [ "$ID" = P27 ] && grep -qE 'cannot be (sent|shared) between threads safely' "$LOG"; then
    # is it osmio? Only the promised types, and nothing else of the harness
    if ! cargo build --offline --manifest-path harness/threads/Cargo.toml --target-dir target/harness >"$LOG.threads" 2>&1 &&
       grep -qE 'cannot be (sent|shared) between threads safely' "$LOG.threads"; then
      grep -m3 -A12 -E 'cannot be (sent|shared) between threads safely' "$LOG.threads"
      cp "$LOG.threads" replays/P27-compile.txt
      echo "VIOLATION property=P27 replay=$VERIF_DIR/replays/P27-compile.txt"
      exit 1
    fi
  fi
  grep -m5 -A8 -E '^error' "$LOG"; echo "INCONCLUSIVE property=$ID: does not build"; exit 2
fi
export VERIF_BUILD="debug assertions and overflow checks ${HOOKS:-without hooks}"

if [ "$ID" = P27 ]; then
  bash "$VERIF_DIR/sanitized.sh" "$TIER" "$@"
  exit $?
fi
exec target/harness/debug/harness "$ID" --tier "$TIER" "$@"
