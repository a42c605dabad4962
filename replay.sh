#!/bin/bash
# replay.sh FILE : replays a recorded violation against /repo's working tree (exit 1: reproduced).
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/dhsim.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
"$here/sim/build.sh" "$scratch/h" "$scratch/b" || exit 2
"$scratch/h" replay "$1"
