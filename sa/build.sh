#!/bin/bash
# builds the analyzer into /verif/bin (git-ignored)
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p ../bin && go build -o ../bin/coniksa.tmp.$$ . && mv ../bin/coniksa.tmp.$$ ../bin/coniksa
