# usage: seedrun.sh id...  applies each seeded patch and runs the check of its property
cd /verif
for j in "$@"; do i=seeded/$j; git -C /repo apply $PWD/$i/patch.diff || continue; p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])"); t0=$(date +%s); bash check.sh $p > /tmp/out_$j.txt 2>&1; rc=$?; git -C /repo checkout -q -- .; echo "$j $p rc=$rc $(grep VIOLATION /tmp/out_$j.txt|cut -c1-120) $(( $(date +%s)-t0 ))s"; done
