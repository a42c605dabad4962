#!/bin/bash
# build.sh OUTBIN [SCRATCH] : transforms /repo's working tree and builds the simulation harness.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=${SIM_REPO:-/repo}
bin=$(realpath -m "$1")
scratch=$2
if [ -z "$scratch" ]; then
  scratch=$(mktemp -d /tmp/dhsim.XXXXXX)
  trap 'rm -rf "$scratch"' EXIT
fi
mkdir -p "$scratch/x" "$scratch/m"
(cd "$here/xform" && go build -o "$scratch/x/xform" .)
m=$scratch/m
cp "$repo/go.mod" "$repo/go.sum" "$m/"
"$scratch/x/xform" -config "$here/xform.json" -src "$repo" -out "$m"
z=$m/zzsim
mkdir -p "$z"
cp -r "$here/rt" "$here/world" "$z/"
for d in "$here"/shims/*; do cp -r "$d" "$z/"; done
[ -d "$here/fast" ] && cp -r "$here"/fast/. "$m/"
cp -r "$here/harness" "$z/"
cp -r "$repo/data" "$m/" 2>/dev/null || true
cd "$m"
GOFLAGS=-mod=mod go build -o "$bin" ./zzsim/harness
