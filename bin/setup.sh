#!/bin/sh
# Builds the verifier from the committed sources.
set -e
cd "$(dirname "$0")/../govc"
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off
mkdir -p ../build
go build -o ../build/govc .
