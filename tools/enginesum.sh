#!/bin/bash
# checksum of the engine's sources
cd "$(dirname "$0")/../engine" && { cat go.mod; for f in $(ls *.go | grep -v _test.go | LC_ALL=C sort); do cat "$f"; done; } | sha256sum | cut -d' ' -f1
