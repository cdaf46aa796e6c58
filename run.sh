#!/bin/bash
# run.sh <property>: builds the analyzer and decides one property on /repo.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
mkdir -p bin
(cd analyzer && go build -o ../bin/sv .) || exit 2
exec bin/sv -repo "${REPO:-/repo}" -prop "$1" -out .
