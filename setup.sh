#!/bin/sh
# setup.sh : builds the symbolic engine (offline) unless it is up to date.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p bin evidence
cd engine && go build -o ../bin/gosym . || exit 2
cd ../harness && cp replay/all.go ../bin/all.go.committed && sh gen.sh && cmp -s replay/all.go ../bin/all.go.committed || echo "note: replay/all.go was out of date" >&2
rm -f ../bin/all.go.committed
exit 0
