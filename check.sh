#!/bin/bash
# usage: check.sh PROPERTY   decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
[ -n "$HOME" ] || export HOME=/root
(cd gover && GOFLAGS=-mod=vendor go build -o ../bin/gover .) || exit 2
exec bin/gover check -p "$1"
