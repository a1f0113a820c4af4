#!/bin/bash
# Warms the build cache and verifies that every check compiles, offline.
set -e
cd "$(dirname "$0")/../harness"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
export PATH=/usr/local/go/bin:$PATH
mkdir -p ../evidence
go vet ./... || go build ./...
t=$(mktemp -d)
CGO_ENABLED=1 go test -c -race -vet=off -o "$t/t" ./c33
rm -rf "$t"
