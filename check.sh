#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE [-v]      run a replay file again
set -u
cd "$(dirname "$0")" || exit 2
export SIM_VERIF="${SIM_VERIF:-$PWD}" SIM_REPO="${SIM_REPO:-/repo}"
GO=/opt/veriftools/go1.23.12/bin/go
[ -x "$GO" ] || GO=go
bin=$(mktemp -d /tmp/simctl.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd tools/simctl && GOTOOLCHAIN=local GOFLAGS= GOWORK=off CGO_ENABLED=0 "$GO" build -o "$bin/simctl" .) || exit 2
if [ "$1" = setup ]; then # warm the build cache
	"$bin/simctl" build "$bin/out" && echo setup ok
elif [ "$1" = replay ]; then
	shift
	"$bin/simctl" replay "$@"
else
	"$bin/simctl" check "$@"
fi
