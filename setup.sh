#!/bin/bash
# builds the analyzer
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
mkdir -p bin
cd analyzer && go build -o ../bin/sv .
