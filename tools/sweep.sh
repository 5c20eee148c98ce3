#!/bin/bash
# tools/sweep.sh [ID...]: every planted bug against its own check; one line each
# (VERIF_SRC: a copy of /verif to take everything from, so that /verif can be edited meanwhile).
src=${VERIF_SRC:-/verif}; cd "$src"
for id in ${*:-$(ls seeded)}; do
  s=seeded/$id; w=/tmp/sweep.$id; /bin/rm -rf "$w"; mkdir -p "$w/verif/evidence"; cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$src/$s/patch.diff" || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cp -a check.py sim tools properties.jsonl MANIFEST.json known_findings.txt "$w/verif/"; cp -a build "$w/verif/build"
  unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py run $p --tier quick >$w/log 2>&1"; r=$?
  echo "$id|$p|$r|$(grep -a '^  [A-Za-z0-9]*:' "$w/log" | head -1 | cut -c1-140)"
  /bin/rm -rf "$w"
done
