#!/bin/bash
# buildconc.sh WORK race|norace: builds WORK/mcconc from the private module copy
# WORK/mc: the packages under test with their synchronization going through
# the controlled scheduler (an overlay made from the working tree).
work=$1; race=-race; [ "$2" = norace ] && race=
unset GOROOT
export GOWORK=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
rm -rf "$work/ov" "$work/fun"; mkdir -p "$work/ov"
cd "$work/mc" || exit 2
# histograms take their (huge, nearly untouched) counters from mcrt.Counts
fun=$(go1.25 list -m -f '{{.Dir}}' github.com/tychoish/fun)
if [ -d "$fun" ] && grep -q 'make(\[\]int64, countsLen)' "$fun/dt/hdrhist/hdr.go"; then
  cp -r "$fun" "$work/fun" && chmod -R u+w "$work/fun" &&
  sed -i 's/make(\[\]int64, countsLen)/mcrt.Counts(int(countsLen))/; s/^import (/import (\n\t"birchmc\/mcrt"/' "$work/fun/dt/hdrhist/hdr.go" &&
  go1.25 mod edit -replace "github.com/tychoish/fun=$work/fun" || exit 2
fi
# watched files change when the explorer says so
go1.25 mod edit -replace "github.com/fsnotify/fsnotify=$work/mc/fake/fsnotify" || exit 2
go1.25 build -o "$work/instrument" ./cmd/instrument &&
"$work/instrument" "$work/ov" go1.25 ./cmd/mcconc &&
go1.25 build $race -overlay "$work/ov/overlay.json" -ldflags=-checklinkname=0 '-gcflags=birchmc/mcrt=-race=false -l' \
  -o "$work/mcconc" ./cmd/mcconc
