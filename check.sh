#!/bin/bash
# check.sh <property>: decides one property for the code in /repo.
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
[ -x bin/govc ] || bash setup.sh || exit 2
exec bin/govc check -repo /repo -spec /verif/spec -p "$1"
