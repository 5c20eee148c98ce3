#!/bin/bash
# tools/plant.sh ID [no]: confirms seeded/ID in scratch copies (tests pass, demo
# fails with the change and passes without), then runs its check against it.
# Uses a mount namespace, so neither /repo nor /verif is touched.
id=$1; s=/verif/seeded/$id
[ -d "$s" ] || { echo "no $s"; exit 2; }
prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
w=/tmp/plant.$id; rm -rf "$w"; mkdir -p "$w"
cp -a /repo "$w/repo"; mkdir "$w/demo"
cp "$s"/* "$w/demo"; rm -f "$w/demo"/*.diff "$w/demo"/meta.json
git -C "$w/repo" apply "$s/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; exit 1; }
( cd /repo && timeout 300 bash "$w/demo/demo.sh" >"$w/demo.clean" 2>&1 ); echo "$id: demo on the clean tree: $? (want 0)"
unshare -m bash -c "mount --bind $w/repo /repo && bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1; cd /repo; timeout 300 bash $w/demo/demo.sh >$w/demo.bug 2>&1; echo \"$id: demo with the change: \$? (want nonzero)\""
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$w/out.json'))
want=b.get('passed') or b.get('stable') or b
want=set(want if isinstance(want,list) else want.keys())
print('$id: tests passed', len(o['passed']), 'failed', o['failed'], 'missing', [] if not isinstance(want,set) else sorted(want-set(o['passed']))[:3])"
tail -2 "$w/demo.bug"
if [ "$2" != no ]; then
  for p in ${2:-$prop}; do
    mkdir -p "$w/verif"; cp -a /verif/check.py /verif/sim /verif/tools /verif/properties.jsonl /verif/MANIFEST.json "$w/verif/"; cp -a /verif/build "$w/verif/build" 2>/dev/null
    cp /verif/known_findings.txt "$w/verif/" 2>/dev/null; mkdir -p "$w/verif/evidence"
    unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py run $p --tier quick >$w/check.$p 2>&1; echo \"$id: check $p: exit \$? (want 1)\""
    grep -a "VIOLATION\|C[0-9]*:" "$w/check.$p" | head -3
    f=$(grep -ao "replay=[^ ]*" "$w/check.$p" | head -1 | cut -d= -f2)
    [ -n "$f" ] && grep -a "^message\|^class\|msg" "$w$f" | head -2
  done
fi
rm -rf "$w/repo" "$w/verif"
