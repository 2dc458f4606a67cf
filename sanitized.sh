#!/bin/bash
# P27, called by check.sh with everything set up: the plain build, then the same workload under
# ThreadSanitizer and AddressSanitizer, and in the thorough tier under Miri.
set -u
TIER="$1"; shift
ARGS=("$@")
LOG="$VERIF_DIR/target/build-P27"
EV="$VERIF_DIR/evidence/P27.json"
TARGET=x86_64-unknown-linux-gnu
export VERIF_JOBS=1
rm -f "$EV" "$VERIF_DIR"/target/P27-*.json

REPLAY=
for a in ${ARGS[@]+"${ARGS[@]}"}; do case "$a" in --replay|--case) REPLAY=1;; esac; done

[ "$TIER" = thorough ] && export VERIF_SOFT_S=200
target/harness/debug/harness P27 --tier "$TIER" ${ARGS[@]+"${ARGS[@]}"}
rc=$?
[ $rc -ne 0 ] && exit $rc

# name, RUSTFLAGS, cargo arguments, share of the cases, seconds
san() {
  local name="$1" flags="$2" extra="$3" scale="$4" soft="$5"
  local why="" out rc
  if ! RUSTFLAGS="--cfg osmio_verif $flags" cargo +nightly build --offline --manifest-path harness/Cargo.toml \
      --target-dir "target/$name" --target $TARGET --features threads $extra >"$LOG-$name.log" 2>&1 &&
     ! RUSTFLAGS="$flags" cargo +nightly build --offline --manifest-path harness/Cargo.toml \
      --target-dir "target/$name" --target $TARGET --features threads $extra >"$LOG-$name.log" 2>&1; then
    echo "P27 under $name: does not build here: $(grep -m1 -E '^error' "$LOG-$name.log")"
    note "$name" "not built"
    return 0
  fi
  VERIF_EVIDENCE="$VERIF_DIR/target/P27-$name.json" VERIF_SCALE="$scale" VERIF_CPU_FACTOR=4 VERIF_SOFT_S="$soft" \
  TSAN_OPTIONS="halt_on_error=1 exitcode=66" ASAN_OPTIONS="exitcode=66 detect_leaks=0 detect_stack_use_after_return=1" \
    "target/$name/$TARGET/debug/harness" P27 --tier "$TIER" ${ARGS[@]+"${ARGS[@]}"} >"$LOG-$name.out" 2>&1
  rc=$?
  sed "s/^P27: held/P27 under $name: held/" "$LOG-$name.out"
  case $rc in
  0) note "$name" ran;;
  1) exit 1;;
  *) note "$name" "no answer (exit $rc)";;
  esac
}

note() { NOTES="${NOTES:-}$1=$2;"; }

if [ "$TIER" = thorough ]; then
  san tsan "-Zsanitizer=thread" "-Zbuild-std" 1 200
  san asan "-Zsanitizer=address" "" 1 80
else
  san tsan "-Zsanitizer=thread" "-Zbuild-std" 0.4 60
  san asan "-Zsanitizer=address" "" 0.4 40
fi

if [ "$TIER" = thorough ] && [ -z "$REPLAY" ]; then
  # each seed is other schedules; alternating is one thread only
  MIRI_N=0
  miri() {
    MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=$1 -Zmiri-preemption-rate=0.05" \
    VERIF_TINY=1 VERIF_SKIP=alternating VERIF_CPU_FACTOR=20 VERIF_SOFT_S="$2" VERIF_SEED=$1 RUSTFLAGS="--cfg osmio_verif" \
      timeout -k 5 480 cargo +nightly miri run --offline --manifest-path harness/Cargo.toml --target-dir target/miri \
      --features threads -- P27 --inline "$3" --tier "$TIER" >"$LOG-miri-$1.out" 2>"$LOG-miri-$1.log"
  }
  miri 0 1 0 # builds it
  for seed in 1 2 3 4 5 6; do miri $seed 200 1000 & done
  wait
  for seed in 1 2 3 4 5 6; do
    L="$LOG-miri-$seed"
    if grep -qE 'Undefined Behavior|[Dd]ata race' "$L.log" || grep -q '^P27 .* case ' "$L.out"; then
      cat "$L.out"; grep -m1 -A25 -E '^error' "$L.log"
      R="$VERIF_DIR/replays/P27-miri-$seed.json"
      python3 - "$R" "$L.log" "$seed" <<'P'
import json, sys
json.dump({"property": "P27", "leg": "miri", "seed": int(sys.argv[3]), "what": open(sys.argv[2]).read()[-6000:]}, open(sys.argv[1], "w"), indent=1)
P
      echo "VIOLATION property=P27 replay=$R"
      exit 1
    fi
    if grep -q '^INLINE' "$L.out"; then
      cp "$L.out" "$VERIF_DIR/target/P27-miri-$seed.json"
      MIRI_N=$((MIRI_N + 1))
    fi
  done
  echo "P27 under miri: held with $MIRI_N seeds"
  note miri "$MIRI_N seeds"
fi

[ -n "$REPLAY" ] && exit 0
NOTES="$NOTES" python3 - "$EV" "$VERIF_DIR/target" <<'P'
import json, os, sys
ev = json.load(open(sys.argv[1]))
san = {}
for name in ("tsan", "asan"):
    f = os.path.join(sys.argv[2], "P27-%s.json" % name)
    if os.path.exists(f):
        c = json.load(open(f))
        san[name] = {"cases": c["coverage"]["cases_run"], "distinct_interleavings": c["coverage"]["distinct_nontrivial"],
                     "observed": c["coverage"]["observed"], "wall_s": c["wall_s"]}
        ev["coverage"]["evaluations"] += c["coverage"]["evaluations"]
        ev["wall_s"] += c["wall_s"]
for seed in range(1, 7):
    f = os.path.join(sys.argv[2], "P27-miri-%d.json" % seed)
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("INLINE "):
                san["miri seed %d" % seed] = json.loads(l[7:])
ev["coverage"]["sanitizers"] = san
ev["coverage"]["sanitizers_status"] = os.environ.get("NOTES", "")
json.dump(ev, open(sys.argv[1], "w"), indent=1)
P
exit 0
