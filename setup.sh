#!/bin/bash
# Builds the checker from its committed sources, offline.
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=vendor -buildvcs=false" GOWORK=off
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
cd "$(dirname "$0")/checker" || exit 1
mkdir -p ../bin
go build -o ../bin/vchk.$$ . && mv ../bin/vchk.$$ ../bin/vchk
