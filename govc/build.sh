#!/bin/bash
cd "$(dirname "$0")" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local exec go build -o "${1:-/tmp/govc}" .
