#!/bin/sh
# Everything is rebuilt from source by each check; this only verifies the toolchain
# and warms the Go build cache.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r driver "$t/driver"
cd "$t/driver"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o "$t/drv" .
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -help >/dev/null 2>&1 || true
echo ok
