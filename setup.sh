#!/bin/bash
# Nothing has to be prepared: every check builds what it needs.  This only
# verifies that the toolchain and the cached modules are there.
set -eu
cd "$(dirname "$0")/harness"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
go version
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cp go.mod go.sum "$scratch/"
go vet -modfile="$scratch/go.mod" ./...
