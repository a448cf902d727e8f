#!/bin/bash
# builds the verifier into /verif/.build/gv (go 1.27 from the image, offline)
cd "$(dirname "$0")" || exit 2
out=../.build/gv
mkdir -p ../.build
env -u GOROOT GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 /usr/local/bin/go build -o "$out" . 
