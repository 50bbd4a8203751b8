#!/bin/bash
# builds the front end and warms the Go build cache; everything is offline
set -e
cd "$(dirname "$0")/.."
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOWORK=off GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p .build evidence replay
(cd frontend && go build -o ../.build/gossa .)
t=$(mktemp -d)
cp -r harness "$t/h"
[ -f /repo/go.sum ] && cp /repo/go.sum "$t/h/go.sum"
(cd "$t/h" && go build -o "$t/" ./c_common ./c_poly ./c_circuit ./c_hash ./c_sumcheck ./c_gkr ./c_snark && mkdir "$t/r" && go build -race -o "$t/r/" ./c_par ./c_sumcheck ./c_circuit ./c_gkr)
rm -rf "${t:?}"
python3-vt -c 'import z3'
