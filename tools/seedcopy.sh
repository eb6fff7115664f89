#!/bin/bash
# seedcopy.sh ID...: like seedtest.sh, in scratch copies of /repo that leave /repo alone
one() {
  id=$1; s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedcopy.XXXXXX); r=$w/r
  mkdir $r; (cd /repo && git ls-files -z | xargs -0 cp --parents -t $r); [ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock $r/
  (cd $r && bash $s/demo.sh >$w/d0 2>&1); c=$?
  (cd $r && git init -q . && git apply $s/patch.diff) || { echo "$id: does not apply"; rm -rf "$w"; return; }
  . /opt/vp/env.sh
  (mkdir $w/tmp; cd $r && TMPDIR=$w/tmp CARGO_TARGET_DIR=$w/t cargo test --workspace --features yule_log/macros --no-fail-fast --offline -- --test-threads 8 >$w/log 2>&1); t=$?
  (cd $r && bash $s/demo.sh >$w/d1 2>&1); d=$?
  (cd /verif && YULE_REPO=$r YULE_EVIDENCE=$w timeout 900 python3 check.py ${CHECKS:-$prop} >$w/c 2>&1); k=$?
  echo "$id $prop: clean demo=$c tests=$t demo=$d check=$k $(grep -o 'VIOLATION property=C[0-9]*' $w/c | cut -c20- | tr '\n' ' ')"
  [ $t != 0 ] && grep -E "FAILED|^error" $w/log | head -5
  [ $d = 101 ] || { [ $d != 0 ] && tail -3 $w/d1; }
  rm -rf "$w"
}
export -f one
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
