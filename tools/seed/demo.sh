#!/bin/bash
# runs the demonstration beside this file against the package in the current directory
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cp "$H"/*_test.go "$D"/ && cp "$R"/go.sum "$D"/go.sum || exit 2
sed -e 's#^module .*#module demo#' -e 's#^go .*#go 1.25#' "$R"/go.mod > "$D"/go.mod
printf '\nrequire github.com/teonet-go/tru v0.0.0\nreplace github.com/teonet-go/tru => %s\n' "$R" >> "$D"/go.mod
cd "$D" && GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local HOME=${HOME:-/root} go test -c -o demo.test -tags verif -vet=off . || exit 3
timeout 250 ./demo.test -test.run TestDemo > out 2>&1; r=$?
tail -c 3000 out
exit $r
