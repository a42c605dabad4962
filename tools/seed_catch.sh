#!/bin/bash
# seed_catch.sh ID [SECS [PROP]] : runs the check of the seeded bug's property on a scratch copy of /repo with it.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1
w=$(mktemp -d /tmp/catch.XXXXXX)
trap 'rm -rf "$w"' EXIT
git clone -q --shared /repo "$w/r" && git -C "$w/r" apply "$here/seeded/$id/patch.diff" || exit 2
prop=${3:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")}
SIM_REPO=$w/r "$here/sim/build.sh" "$w/h" "$w/b" >"$w/log" 2>&1 || { echo "$id: does not build"; tail -20 "$w/log"; exit 2; }
t0=$(date +%s)
"$w/h" check -prop "$prop" -tier quick -seed "${VERIF_SEED:-1}" -time "${2:-60}" -known "$here/known-findings.txt" -evidence "$w/e.json" -replays "$w/rp" -setup 1 >"$w/out" 2>&1
rc=$?
echo "$id $prop rc=$rc after $(($(date +%s)-t0)) s: $(grep -m1 -A2 VIOLATION "$w/out" | tr '\n' ' ' | cut -c1-300)"
