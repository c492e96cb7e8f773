#!/bin/bash
# Nothing is installed: checks the tools are there and that the driver builds.
set -e
cd "$(dirname "$0")/.."
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
mkdir -p evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
d=$(mktemp -d)
cp -r harness "$d/h"
(cd "$d/h" && go build -o "$d/pub" ./cmd/pub && go build -o "$d/intern" ./cmd/intern)
rm -rf "$d"
