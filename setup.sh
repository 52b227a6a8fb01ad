#!/bin/sh
# Builds the analyser once, to fill the build cache and to fail early.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
cd "$here/checker" && go build -o /dev/null ./cmd/skipverif && go vet ./...
