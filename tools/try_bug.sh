#!/bin/bash
# usage: try_bug.sh ID [nocheck|C05 C08 ...]   validates /verif/seeded/ID in a scratch copy of /repo, then runs checks against it
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug_XXXXXX)
cp -a /repo $W/repo
cd $W/repo
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "== $ID property=$PROP"
git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
cp -a /opt/vp $W/vp; find $W/vp -type f -exec sed -i "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" {} +
find $W/repo/_build -delete
bash $W/vp/build.sh > $W/build.log 2>&1 || { echo "BUILD FAILS"; tail -20 $W/build.log; }
bash $W/vp/test.sh $W/o.json 2>&1 | tail -1
D=$(mktemp -d /tmp/demo_XXXXXX); cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
( cd $W/repo && timeout 300 bash $D/demo.sh > $W/demo1.log 2>&1 ); echo "demo with patch: $? ($(tail -1 $W/demo1.log))"
if [ -z "$SKIPCLEAN" ]; then
( cd /repo && timeout 300 bash $D/demo.sh > $W/demo0.log 2>&1 ); echo "demo clean: $? ($(tail -1 $W/demo0.log))"
fi
if [ "$1" != nocheck ]; then
for c in ${@:-$PROP}; do
  VERIF_REPO=$W/repo timeout 900 python3 /verif/check.py $c quick > $W/c.log 2>&1; echo "check $c: $? $(grep -a violated $W/c.log | cut -c1-300)"; grep -a NO-VERD -A5 $W/c.log | head
done
fi
find "$W" "$D" -delete
