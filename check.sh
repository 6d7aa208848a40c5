#!/bin/bash
# check.sh <ID> [--tier quick|thorough] [--replay FILE] [driver options]
# Builds libtsm from /repo's working tree plus the check <ID> into a scratch
# directory, runs the search and removes the scratch directory again.
set -u
cd "$(dirname "$0")"; V=$PWD; REPO=${VT_REPO:-/repo}
ID=$1; shift
TIER=${VERIF_TIER:-quick}; SEED=${VERIF_SEED:-1}; REPLAY=; EXTRA=()
while [ $# -gt 0 ]; do case $1 in --tier) TIER=$2; shift 2;; --seed) SEED=$2; shift 2;; --replay) REPLAY=$2; shift 2;; *) EXTRA+=("$1"); shift;; esac; done
B=$(mktemp -d /tmp/vtbuild.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT; trap 'exit 2' INT TERM HUP
H=$V/harness; DEF=; [ -f "$H/checks/$ID.flags" ] && DEF=$(cat "$H/checks/$ID.flags")
PC=; PL=; if [ -f "$H/checks/$ID.pkg" ]; then PC="$(pkg-config --cflags $(cat "$H/checks/$ID.pkg")) -I$REPO/src/gtktsm" && PL=$(pkg-config --libs $(cat "$H/checks/$ID.pkg")) || { echo "$ID: libraries missing" >&2; exit 2; }; fi
SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
WARN="-Wno-everything"
build() { # $1 = output directory, $2 = sanitizer flags, $3 = extra C++ flags
  local o=$1 san=$2 xx=$3 pids=() p rc=0
  mkdir -p "$o"
  local cf="-std=gnu99 -O1 -g $san $WARN -D_GNU_SOURCE -D_POSIX_C_SOURCE=199309L -fno-strict-aliasing -fno-common -ffast-math $DEF -I$H -I$REPO/src/tsm -I$REPO/src/shared -I$REPO/external -I$REPO/external/wcwidth"
  for f in "$REPO"/src/tsm/*.c "$REPO"/src/shared/*.c "$REPO"/external/wcwidth/wcwidth.c; do
    clang $cf -include "$H/config.h" -include "$H/prelude.h" -c "$f" -o "$o/r_$(basename "$f" .c).o" & pids+=($!)
  done
  clang $cf -c "$H/alloc.c" -o "$o/h_alloc.o" & pids+=($!)
  clang -std=gnu99 -O1 -w -c "$H/ref_wcwidth.c" -o "$o/h_refw.o" & pids+=($!)
  [ -f "$H/checks/$ID.c" ] && { clang $cf $PC -c "$H/checks/$ID.c" -o "$o/h_glue.o" & pids+=($!); }
  for f in "$H/driver.cpp" "$H/checks/$ID.cpp"; do
    clang++ -std=c++17 -O1 -g $san -w $DEF $xx $PC -I"$H" -I"$REPO/src/tsm" -c "$f" -o "$o/x_$(basename "$f" .cpp).o" & pids+=($!)
  done
  for p in "${pids[@]}"; do wait "$p" || rc=1; done
  [ $rc = 0 ] || return 1
  rm -f "$o/r_test_wcwidth.o"
  clang++ $san $4 "$o"/*.o $PL -lpthread -lm -o "$o/check" || return 1
}
build "$B/main" "$SAN" "" "" || { echo "$ID: build failed" >&2; exit 2; }
if [ -f "$H/checks/$ID.build" ]; then . "$H/checks/$ID.build" || { echo "$ID: build failed" >&2; exit 2; }; fi
export ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=2500:abort_on_error=0:exitcode=79:allocator_may_return_null=0 UBSAN_OPTIONS=print_stacktrace=1
if [ -n "$REPLAY" ]; then "$B/main/check" --tier "$TIER" --replay "$REPLAY" "${EXTRA[@]}"; exit $?; fi
mkdir -p "$V/evidence" "$V/replays"
TRY=()
FZ=$(cat "$H/checks/$ID.fuzz" 2>/dev/null)
if [ "$TIER" = thorough ] && [ -n "$FZ" ]; then
  # coverage-guided campaign over the same choice tapes; anything it reports is
  # only a candidate, the driver below replays and judges it
  if build "$B/fuzz" "$SAN -fsanitize=fuzzer-no-link" "-DVT_LIBFUZZER" "-fsanitize=fuzzer"; then
    for k in 1 2 3 4 5 6 7 8; do
      mkdir -p "$B/art$k" "$B/corp$k"; printf 'seed%s' "$k" > "$B/corp$k/s"; "$B/main/check" --tier thorough --seed $((SEED*100+k)) --emit "$B/corp$k" --cases 40 >/dev/null 2>&1
      "$B/fuzz/check" -seed=$((SEED*8+k)) -runs="$FZ" -max_total_time=400 -max_len=4096 -len_control=20 -timeout=30 -rss_limit_mb=2400 -print_final_stats=1 -artifact_prefix="$B/art$k/" "$B/corp$k" >"$B/fz$k.log" 2>&1 &
    done; wait
    mkdir -p "$B/try"; for k in 1 2 3 4 5 6 7 8; do for f in "$B/art$k"/*; do [ -f "$f" ] && cp "$f" "$B/try/$k-$(basename "$f")"; done; grep -h stat::number_of_executed "$B/fz$k.log" || tail -3 "$B/fz$k.log"; done
    n=$(cat "$B"/fz*.log | awk '/stat::number_of_executed_units/{s+=$2} END{print s+0}')
    TRY=(--try "$B/try" --fuzzed "$n")
  else echo "$ID: fuzz build failed" >&2; exit 2; fi
fi
"$B/main/check" --tier "$TIER" --seed "$SEED" --evidence "$V/evidence/$ID.json" --replays "$V/replays" "${TRY[@]}" "${EXTRA[@]}"
exit $?
