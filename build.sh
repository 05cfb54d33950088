#!/bin/bash
# Builds the engine into $1 (default /verif/bin/vengine).
set -e
cd "$(dirname "$0")"
out=${1:-$PWD/bin/vengine}
mkdir -p "$(dirname "$out")"
cd engine
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o "$out" .
