#!/bin/bash
# try_seed.sh ID...: confirm planted bugs in a scratch copy: patch applies, builds, stable tests pass, demo tells.
S=${SCRATCH:-/tmp/sr}
[ -d $S ] || cp -a /repo $S
for id in "$@"; do
  d=${SEEDS:-/verif/seeded}/$id
  git -C $S checkout -q -- . ; git -C $S clean -fdq src
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $S && timeout 600 cargo test --workspace --no-fail-fast --offline --all-features -- --test-threads 8 >/tmp/t.all 2>&1) || { 
     echo "$id: TESTS FAIL $(grep -cE "^test .*FAILED" /tmp/t.all)"; git -C $S checkout -q -- .; git -C $S clean -fdq proptest-regressions; continue; }
  (cd $S && timeout 600 cargo test --workspace --no-fail-fast --offline --no-default-features -- --test-threads 8 >/tmp/t.none 2>&1)
  f=$(cat /tmp/t.all /tmp/t.none | grep -E "^test .*FAILED|^error" | sort | uniq -c | tr '\n' ';')
  n=$(cat /tmp/t.all /tmp/t.none | grep -cE "^test .* ok$")
  (cd $S && bash $d/demo.sh >/tmp/demo1.log 2>&1); r1=$?
  git -C $S checkout -q -- . ; git -C $S clean -fdq proptest-regressions
  r0=skip
  if [ -z "$NOCLEAN" ]; then (cd $S && bash $d/demo.sh >/tmp/demo0.log 2>&1); r0=$?; fi
  echo "$id: demo clean=$r0 patched=$r1 tests ok=$n failed: $f"
done
