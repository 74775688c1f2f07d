#!/bin/bash
# Builds the verifier from /verif/tool into /verif/bin (no network).
set -e
cd "$(dirname "$0")/../tool"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOENV=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOTELEMETRY=off GO111MODULE=on GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
unset GOPATH
mkdir -p ../bin
go build -o ../bin/ninepv .
