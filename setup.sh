#!/bin/bash
# Shows that the framework builds from the committed files.
set -eu
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
cd "$HERE/mc"
go build -o /dev/null ./cmd/instr
GOWORK=$HERE/mc/go.work go build -o /dev/null ./cmd/mc
