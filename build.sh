#!/bin/bash
# builds the verifier if it is missing or older than its sources
cd "$(dirname "$0")/govc" || exit 2
mkdir -p ../bin
if [ ! -x ../bin/govc ] || [ -n "$(find . -name '*.go' -newer ../bin/govc)" ]; then
  GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go build -o ../bin/govc.tmp . && mv ../bin/govc.tmp ../bin/govc
fi
