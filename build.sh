#!/bin/bash
# Builds the analyser from the committed source, offline.
set -e
cd "$(dirname "$0")/sa"
mkdir -p ../bin
env GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' CGO_ENABLED=0 go build -o ../bin/sa .
