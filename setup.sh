#!/bin/bash
# Builds the analyser from its vendored sources. Needs no network.
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/checker"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$here/bin"
go build -o "$here/bin/idmverify" .
