#!/bin/bash
# Builds the symbolic executor from its sources (offline, from the module cache).
set -e
cd "$(dirname "$0")/engine"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p ../bin
go build -o ../bin/vsym .
