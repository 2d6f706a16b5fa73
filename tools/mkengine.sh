#!/bin/bash
# builds the engine and refreshes bin/gosym.gz
cd "$(dirname "$0")/../engine" || exit 1
GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0 go build -trimpath -ldflags "-s -w" -o /tmp/gosym . || exit 1
mkdir -p ../bin
gzip -9nc /tmp/gosym > ../bin/gosym.gz
../tools/enginesum.sh > ../bin/gosym.sum
