#!/bin/bash
# bash tools/trybugs.sh [id ...]: run the check of each planted bug's property on a scratch copy of /repo with the bug applied
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
one() { i=$1; w=$(mktemp -d /tmp/tb_XXXX); cp -a /repo $w/repo; p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])"); git -C $w/repo apply $PWD/seeded/$i/patch.diff || echo "$i patch does not apply"; 
  if [ ! -f checks/${p,,}.py ]; then echo "$i: no check"; else o=$(DREIMAC_REPO=$w/repo VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?; echo "$i rc=$rc $(echo "$o" | grep 'rule=' | head -1 | cut -c1-160)"; fi; rm -rf "$w"; }
export -f one
printf '%s\n' $ids | xargs -P 6 -I{} bash -c 'one {}'
