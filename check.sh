#!/bin/bash
# check.sh <property> quick|thorough        run a check
# check.sh <property> replay FILE           re-run one recorded violation
# Builds the checker from /repo's current working tree, then runs it.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}; mode=${2:?quick|thorough|replay}; shift 2
export VERIF_DIR=$here
export GOWORK=off GOFLAGS=-mod=mod
work=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$here/evidence/replays"
# a private module copy, so that building never rewrites committed files
cp -a "$here/mc" "$work/mc" || exit 2
mode2=$(awk -v id="$id" '$1==id {print $2?$2:"race"}' "$here/tools/conc.txt")
if [ -n "$mode2" ]; then
  # Schedule exploration: the synchronization of the packages under test goes
  # through the controlled scheduler (an overlay made from the working tree),
  # with the race detector (unless the property has one thread only), the
  # virtual clock and go 1.25.
  bin=mcconc
  export GORACE="exitcode=0 atexit_sleep_ms=0"
  "$here/tools/buildconc.sh" "$work" "$mode2" >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "build failed"; exit 2; }
else
  bin=mcseq
  ( cd "$work/mc" && go build -o "$work/mcseq" ./cmd/mcseq ) >"$work/build.log" 2>&1 || {
    cat "$work/build.log"; echo "build failed"; exit 2; }
fi
run() { ( cd "$work" && "$work/$bin" "$id" "$mode" "$@" ) 2>"$work/stderr"; }
export GOMEMLIMIT=8GiB
run "$@"; rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # The process itself died: a crash the engine cannot contain (stack
  # overflow, fatal runtime error, panic in a background goroutine).
  # Repeat with tracing on to name the case.
  head -c 4000 "$work/stderr"
  export MC_TRACE=$work/trace
  run "$@"; rc=$?
  if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
    out=$here/evidence/replays/$id-crash.log
    { echo "process crashed (exit $rc); cases in flight:"; tr -s '\0' '\n' <"$work/trace"; head -c 20000 "$work/stderr"; } >"$out" 2>/dev/null
    if grep -aqE '^(fatal error|panic|runtime:|SIG|WARNING: DATA RACE)' "$work/stderr"; then
      echo "VIOLATION property=$id replay=$out"
      exit 1
    fi
    exit 2
  fi
fi
[ -s "$work/stderr" ] && head -c 3000 "$work/stderr" >&2
exit $rc
