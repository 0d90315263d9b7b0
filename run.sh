#!/bin/bash
# run.sh ID TIER : builds the harness against /repo's working tree and runs one check.
# The thorough tier runs part of the cases with a sanitizer first: ThreadSanitizer (the standard library
# instrumented too) for C14, AddressSanitizer for the others (not C20, whose server is a build of its own).
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./env.sh
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
LOG="$PWD/harness/target/build.log"; mkdir -p harness/target
if ! cargo build --offline --quiet --manifest-path harness/Cargo.toml >"$LOG" 2>&1; then
  tail -40 "$LOG"; echo "harness build failed"; exit 3
fi
if [ "$TIER" = thorough ] && [ "$ID" != C20 ]; then
  T=x86_64-unknown-linux-gnu
  if [ "$ID" = C14 ]; then SAN=thread; STD=-Zbuild-std; else SAN=address; STD=; fi
  DIR="$PWD/harness/target/$SAN"
  if RUSTFLAGS="$RUSTFLAGS -Zsanitizer=$SAN" cargo build --offline --quiet $STD --target $T --target-dir "$DIR" --manifest-path harness/Cargo.toml --bin vh >"$LOG" 2>&1; then
    OUT=$(ASAN_OPTIONS=detect_leaks=0 TSAN_OPTIONS="halt_on_error=1 history_size=4" VH_SLACK=6 VH_CASES="${VH_SAN_CASES:-600}" VH_BUDGET="${VH_SAN_BUDGET:-900}" "$DIR/$T/debug/vh" check "$ID" quick "$SEED"); RC=$?
    echo "$OUT" | sed "s/^$ID: /$ID with the $SAN sanitizer: /" | grep -v '^KNOWN-FINDING'
    [ $RC = 1 ] && exit 1
    export VH_SANITIZERS="$SAN: $(echo "$OUT" | grep "^$ID: " | tail -1 | cut -c1-200)"
  else
    export VH_SANITIZERS="$SAN: not built"
  fi
fi
exec harness/target/debug/vh check "$ID" "$TIER" "$SEED"
