#!/bin/bash
# builds the symbolic executor into /verif/bin
cd "$(dirname "$0")" && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o ../bin/gosym.new.$$ . && mv ../bin/gosym.new.$$ ../bin/gosym
