#!/bin/sh
# check.sh ID [quick|thorough] [REPO]: decides property ID for the package in
# REPO (default /repo). Builds the analyser from source first.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
: "${HOME:=/root}"; export HOME
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/checker" && go build -o "$tmp/skipverif" ./cmd/skipverif) || { echo "the analyser does not build"; exit 2; }
unset GOFLAGS
"$tmp/skipverif" -check "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${3:-/repo}" -verif "$here"
