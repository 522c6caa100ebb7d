#!/bin/bash
# Builds the checking engine (offline) into /verif/bin.
cd "$(dirname "$0")/engine" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/gosym . || exit 2
