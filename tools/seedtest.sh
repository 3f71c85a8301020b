#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo and runs the property's check against it.
. /opt/vp/env.sh
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$W/repo"; cd "$W/repo"
export HOME=/root
bash $S/demo.sh >$W/o1 2>&1; a=$?
git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
go build $PKGS >$W/b 2>&1; b=$?
bash $S/demo.sh >$W/o2 2>&1; c=$?
go test -json $PKGS 2>/dev/null > $W/t.json
python3 - "$W/t.json" > $W/tr <<'X'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
print("missing", sorted(st-ok))
X
echo "$1 ($P): demo clean=$a build=$b demo patched=$c tests: $(cat $W/tr)"
[ $a = 0 ] || tail -5 $W/o1; [ $c != 0 ] || tail -5 $W/o2
if [ "$2" != nocheck ]; then
  mkdir -p $W/out; t0=$(date +%s)
  /verif/bin/govc check -property $P -tier quick -repo $W/repo -out $W/out > $W/c 2>&1; r=$?
  echo "  check exit=$r in $(( $(date +%s)-t0 ))s: $(grep -E 'VIOLATION|failed obl' $W/c | head -3 | tr '\n' ';')"
fi
rm -rf "$W"
