#!/bin/bash
# tools/refac.sh DIFF [CHECK...]: runs the repository's tests and the checks with a
# behaviour-preserving change applied, in scratch copies (a mount namespace keeps
# /repo and /verif untouched). Everything should pass and stay quiet.
d=$(realpath "$1"); id=$(basename "$d" .diff); shift
checks=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C20}
w=/tmp/refac.$id; rm -rf "$w"; mkdir -p "$w/verif/evidence"
cp -a /repo "$w/repo"
git -C "$w/repo" apply "$d" || { echo "$id: does not apply"; rm -rf "$w"; exit 1; }
cp -a /verif/check.py /verif/sim /verif/tools /verif/properties.jsonl /verif/MANIFEST.json /verif/known_findings.txt "$w/verif/"
cp -a /verif/build "$w/verif/build" 2>/dev/null
unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && bash /opt/vp/build.sh >$w/build.log 2>&1; bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1; cd /verif; for c in $checks; do VERIF_SEED=1 VERIF_TIER=quick python3 check.py run \$c --tier quick >$w/\$c.log 2>&1; r=\$?; [ \$r = 0 ] || { echo \"$id: \$c exit \$r\"; grep -a 'VIOLATION\|C[0-9]*:\|error' $w/\$c.log | head -4; }; done"
python3 -c "import json;o=json.load(open('$w/out.json'));print('$id: tests passed',len(o['passed']),'failed',o['failed'])"
rm -rf "$w/repo" "$w/verif"
