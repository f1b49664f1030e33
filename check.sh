#!/bin/bash
# usage: check.sh ID [--tier quick|thorough] [--seed N] [--replay FILE] [--law NAME] [-v] ...
# Builds the harness of property ID from /repo's working tree and runs it.  ECL_REPO overrides /repo (development only).
set -u
HERE=$(cd "$(dirname "$0")" && pwd); cd "$HERE"
ID=$1; shift
R=${ECL_REPO:-/repo}
SRC=$(ls checks/"$ID"_*.cpp 2>/dev/null | head -1)
[ -n "$SRC" ] || { echo "no harness for $ID" >&2; exit 2; }
cfg() { sed -n "s#^// *$1: *##p" "$SRC" | head -1; }
LIBS=$(cfg LIB); CFLAGS=$(cfg FLAGS); RULE_EXTRA=$(cfg EXTRA)
mkdir -p build evidence replays
BASE="-std=c++14 -g1 -DECL_STANDALONE -fno-associative-math -w -I$HERE/shim -I$R -I$R/EKF"
OPT="${CFLAGS:--O1}"
CXX=g++
# ---- library objects, keyed by the content of every source they can see
srcs() { for s in $LIBS; do case $s in EKF) ls $R/EKF/*.cpp;; *) echo $R/$s;; esac; done | sort -u; }
KEY=$( { echo "$BASE $OPT $LIBS"; find $R/EKF $R/geo $R/geo_lookup $R/mathlib $R/AlphaFilter $R/airdata $R/ecl.h shim lib -type f \( -name '*.cpp' -o -name '*.h' -o -name '*.hpp' \) -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-20)
OBJ=build/obj-$KEY
if [ ! -f "$OBJ/done" ]; then
  T=$(mktemp -d build/tmp.XXXXXX)
  # drop stale object sets, keep the few most recent
  ls -dt build/obj-* 2>/dev/null | tail -n +25 | while read -r d; do rm -rf "$HERE/$d"; done
  if ! { srcs | xargs -r -P8 -I{} sh -c "$CXX $BASE $OPT -c {} -o $T/\$(echo {} | tr / _).o"; } ; then
    echo "$ID: sources do not compile" >&2; rm -rf "$HERE/$T"; exit 2
  fi
  touch "$T/done"; mv -T "$T" "$OBJ" 2>/dev/null || rm -rf "$HERE/$T"
fi
BKEY=$( { echo "$KEY"; sha256sum checks/*.hpp "$SRC" 2>/dev/null; } | sha256sum | cut -c1-20)
BIN=build/$ID-$BKEY
if [ ! -x "$BIN" ]; then
  rm -f build/$ID-*
  O=$(ls $OBJ/*.o 2>/dev/null)
  $CXX $BASE $OPT -I"$HERE/lib" -I"$HERE/checks" "$SRC" $O -o "$BIN.tmp.$$" || { echo "$ID: harness does not compile" >&2; exit 2; }
  mv "$BIN.tmp.$$" "$BIN"
fi
[ "${1:-}" = "--build-only" ] && exit 0
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1 UBSAN_OPTIONS=halt_on_error=1:print_stacktrace=1
case " $* " in *" --replay "*|*" --one "*) EV=();; *) EV=(--evidence "evidence/$ID.json");; esac
exec "$BIN" "${EV[@]}" --replays "$HERE/replays" --findings "$HERE/known_findings.txt" "$@"
