#!/bin/bash
# seedtest.sh ID...: validate planted bugs in scratch copies (development tool, not used by any check)
# builds, runs the stable tests, the demo with and without the patch, and the property's check on the patched copy
one() {
  id=$1; S=/verif/seeded/$id; W=/tmp/w/seed_$id; rm -rf "$W"; mkdir -p $W/x
  cp -a /repo $W/repo; git -C $W/repo checkout -q -- . ; cp -a $S $W/x/demo; rm -f $W/x/demo/*.diff $W/x/demo/meta.json
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd $W/repo && timeout 300 bash $W/x/demo/demo.sh >$W/demo0.log 2>&1); d0=$?
  git -C $W/repo checkout -q -- . ; git -C $W/repo clean -fdq
  git -C $W/repo apply $S/patch.diff || { echo "$id patch does not apply"; return; }
  (cd $W/repo && timeout 300 bash $W/x/demo/demo.sh >$W/demo1.log 2>&1); d1=$?
  git -C $W/repo clean -fdq
  python3-vt /verif/run.py $P --repo $W/repo --out $W/out >$W/check.log 2>&1; c=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    sed "s#/repo\b#$W/repo#g; s#=~/repo#=~$W/repo#" /opt/vp/build.sh > $W/build.sh; mkdir -p $W/lib; cp /opt/vp/lib/* $W/lib/; sed -i "s#/repo\b#$W/repo#g" $W/lib/*.py; sed -i "s#/opt/vp/lib#$W/lib#g" $W/build.sh
    bash $W/build.sh >$W/build.log 2>&1; b=$?
    sed "s#/repo\b#$W/repo#g; s#/opt/vp/lib#$W/lib#g" /opt/vp/test.sh | sed "s#\$WORK/\$name$W/repo#\$WORK/\$name/repo#; s#\$WORK$W/repo#\$WORK/repo#g; s#\"\$WORK/reports#\"\$WORK/reports#g" > $W/test.sh
    bash $W/test.sh $W/t.json >$W/test.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$W/t.json'));print('build=$b','lost='+str(sorted(set(b['stable'])-set(t['passed']))))")
  fi
  echo "$id $P demo clean=$d0 patched=$d1 check=$c tests: $t"
  grep -m2 violated $W/check.log | cut -c1-160
  [ -n "$KEEP" ] || rm -rf "$W"
}
for i in "$@"; do one $i; done
