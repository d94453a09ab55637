#!/bin/bash
# seedrun.sh ID [CHECK]: run the property's check against a planted bug
d=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
cd /verif && ./check $p > /tmp/seedrun_$1.txt 2>&1
rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -c ^VIOLATION /tmp/seedrun_$1.txt) violations; no-input: $(grep -c no-failing-input /tmp/seedrun_$1.txt); $(tail -1 /tmp/seedrun_$1.txt)"
grep '^#' /tmp/seedrun_$1.txt | head -3
