#!/bin/bash
# cwd: the repository. Exit 0: the property holds in this scenario.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_support_test.go":"%s/support_test.go","%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" "$PWD" "$D" > "$T/overlay.json"
RACE=
[ -e "$D/race" ] && RACE=-race && export CGO_ENABLED=1
go test $RACE -vet=off -overlay "$T/overlay.json" -run '^TestDemo$' -count=1 -timeout 200s .
