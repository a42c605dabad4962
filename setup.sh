#!/bin/bash
# setup.sh : builds the simulation once from the committed files, to show that it builds.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/dhsim.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
"$here/sim/build.sh" "$scratch/h" "$scratch/b" && "$scratch/h" list
