#!/bin/bash
# Nothing is kept from here: every check builds its own driver.  This only
# makes sure the toolchain works offline.
cd "$(dirname "$0")/../harness" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
go build -ldflags=-checklinkname=0 ./... && java -version 2>/dev/null && test -f /opt/veriftools/tla/tla2tools.jar
