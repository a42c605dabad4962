#!/bin/bash
# check.sh PROPERTY [TIER] : builds the simulation from /repo's working tree and searches for violations.
# exit 0: none found; exit 1: VIOLATION line printed; exit 2: the check could not be carried out.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
# components alone saturate sooner than clusters
case $prop in
  C14|C16|C19|C21|C23) secs=50 ;;
  C01|C03|C04|C06|C07|C10|C11|C12|C15|C20) secs=95 ;;
  *) secs=75 ;;
esac
[ "$tier" = thorough ] && secs=600
secs=${SIM_SECS:-$secs}
t0=$(date +%s.%N)
scratch=$(mktemp -d /tmp/dhsim.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
if ! "$here/sim/build.sh" "$scratch/h" "$scratch/b" >"$scratch/build.log" 2>&1; then
  echo "the simulation of /repo's working tree does not build:"
  tail -40 "$scratch/build.log"
  exit 2
fi
rm -rf "$scratch/b"
t1=$(date +%s.%N)
export TMPDIR=$scratch
mkdir -p "$here/evidence"
"$scratch/h" check -prop "$prop" -tier "$tier" -seed "$seed" -time "$secs" -known "$here/known-findings.txt" \
  -evidence "$here/evidence/$prop.json" -replays "$here/replays" -setup "$(echo "$t1 $t0" | awk '{print $1-$2}')"
