#!/bin/bash
# builds the symbolic executor from the committed sources
set -e
cd "$(dirname "$0")/gosym"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
want=$(cat *.go go.mod go.sum | sha256sum | cut -d' ' -f1)
if [ -x ../bin/gosym ] && [ "$(cat ../bin/gosym.sum 2>/dev/null)" = "$want" ]; then exit 0; fi
go build -o ../bin/gosym.$$ . && mv -f ../bin/gosym.$$ ../bin/gosym && echo "$want" > ../bin/gosym.sum
