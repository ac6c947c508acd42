#!/bin/bash
# run_checks.sh PATCH [ID...]: run the checks (default: all) on a scratch copy with the patch applied
S=/tmp/w/c; [ -d $S ] || git clone -q /repo $S
git -C $S checkout -q -- . ; git -C $S pull -q 2>/dev/null
git -C $S apply "$(realpath "$1")" || exit 3
shift
ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
for i in $ids; do
  JMT_REPO=$S JMT_BUILD=/tmp/w/cb JMT_EVIDENCE=/tmp/w/ev python3 /verif/sa/check.py $i > /tmp/w/out.$i 2>&1; rc=$?
  [ $rc -ne 0 ] && { echo "$i rc=$rc"; grep -A1 VIOLATION /tmp/w/out.$i | grep -v VIOL | head -3 | cut -c1-200; [ $rc -ne 1 ] && tail -2 /tmp/w/out.$i | cut -c1-300; }
done
git -C $S checkout -q -- .
