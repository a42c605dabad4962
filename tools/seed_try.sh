#!/bin/bash
# seed_try.sh ID [notest] : in a scratch copy of /repo, checks that the seeded bug ID builds, that its demo
# passes without and fails with it, and that the stable tests still pass with it.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
git clone -q --shared /repo "$w/r" && cd "$w/r" || exit 2
. /opt/vp/env.sh
mkdir "$w/d" && cp -r "$here/seeded/$id/." "$w/d/" && rm -f "$w/d/patch.diff" "$w/d/meta.json"
bash "$w/d/demo.sh" >"$w/o0" 2>&1; a=$?
git apply "$here/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
bash "$w/d/demo.sh" >"$w/o1" 2>&1; b=$?
echo "$id: demo unpatched=$a patched=$b"
[ $a = 0 ] || tail -20 "$w/o0"
[ $b != 0 ] || tail -20 "$w/o1"
if [ -z "$2" ]; then
  python3 - "$w" <<'P'
import json,subprocess,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
out=subprocess.run(['go','test','-json','-count=1','./...'],capture_output=True,text=True,cwd=sys.argv[1]+'/r').stdout
ok=set()
for l in out.splitlines():
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add((d['Package'],d['Test']))
names={t for _,t in ok}
miss=[x for x in b if (x.split('::')[-1].split('/')[-1] not in names and x.split(' ')[-1] not in names)]
print('stable tests missing:',miss)
P
fi
