#!/bin/bash
# seeds.sh [ID...]: run the claimed check of each planted bug (all checks with ALL=1) against it
cd /verif/seeded
for i in ${@:-*}; do
    p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
    list=$p; [ -n "$ALL" ] && list="$(seq -f "C%02g" 1 22) C25 C26 C27 C28"
    out=""
    for c in $list; do
        /verif/check.sh $c > /tmp/seeds.out 2>&1; rc=$?
        [ $rc = 1 ] && grep -q "^VIOLATION property=$c" /tmp/seeds.out && out="$out $c"
        [ $rc -gt 1 ] && out="$out $c?$rc"
    done
    git -C /repo checkout -q -- .
    case " $out " in *" $p "*) echo "caught $i ($p):$out";; *) echo "MISSED $i ($p):$out";; esac
done
