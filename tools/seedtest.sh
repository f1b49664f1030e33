#!/bin/bash
# usage: seedtest.sh DIR...   checks one planted bug in a scratch copy: applies, builds, stable tests, demo both ways, then the property's check.
cd "$(dirname "$0")/.." || exit 2
for d in "$@"; do
  id=$(basename "$d"); W=/tmp/seedtest.$$; mkdir -p $W; rsync -a --delete /repo/ $W/repo/ ; mkdir -p $W/demo; cp -a seeded/$id/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  r="$id [$prop]:"
  (cd $W/repo && bash $W/demo/demo.sh >$W/clean.log 2>&1); rc=$?; [ $rc = 0 ] && r="$r clean-ok" || r="$r CLEAN-DEMO-FAILS($rc)"
  (cd $W/repo && git apply /verif/seeded/$id/patch.diff) || r="$r NO-APPLY"
  (cd $W/repo && bash $W/demo/demo.sh >$W/bug.log 2>&1); rc=$?; [ $rc != 0 ] && r="$r demo-detects" || r="$r DEMO-MISSES"
  [ -n "$SEED_VERBOSE" ] && { tail -3 $W/clean.log; tail -3 $W/bug.log; }
  ECL_REPO=$W/repo timeout 900 ./check.sh $prop >$W/chk.log 2>&1; rc=$?; if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " $W/chk.log; then r="$r CAUGHT: $(grep '^law' $W/chk.log | head -1 | cut -c1-150)"; else r="$r MISSED(rc=$rc)"; fi
  echo "$r"; rm -rf /tmp/seedtest.$$
done
