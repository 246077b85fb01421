#!/bin/bash
# Prewarms the build cache. Checks build everything themselves from /repo; this
# only makes the first of them faster.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
. "$ROOT/tools/build.sh"
mkdir -p "$ROOT/.build/setup"
prepare_mods || exit 1
for v in fast real race; do build_vrun $v "$ROOT/.build/setup/vrun-$v" || exit 1; done
build_vrun s2k "$ROOT/.build/setup/vrun-s2k"
build_cli_fast "$ROOT/.build/setup/cli" && build_cli_race "$ROOT/.build/setup/cli-race" && build_cli_real "$ROOT/.build/setup/cli-real" || exit 1
rm -rf "$ROOT/.build/setup"
