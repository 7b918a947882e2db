#!/bin/bash
# check.sh <property> [quick|thorough] [extra engine flags]: builds the engine and decides one property.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOTOOLCHAIN=local
scratch="$(mktemp -d /tmp/vengine.XXXXXX)" || exit 2
trap 'rm -rf "$scratch"' EXIT
( cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$scratch/vengine" . ) || { echo "engine does not build"; exit 2; }
"$scratch/vengine" -prop "$prop" -tier "$tier" "$@"
