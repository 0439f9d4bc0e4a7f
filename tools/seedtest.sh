#!/bin/bash
# seedtest.sh ID [notests]: builds and tests a scratch copy with the planted bug, runs the demo with and without it
id=$1; W=$(mktemp -d /tmp/seedXXXX); cp -a /repo $W/repo; cd $W/repo
( bash /verif/seeded/$id/demo.sh >/dev/null 2>&1; echo "$id demo on unchanged tree: $?" )
git apply /verif/seeded/$id/patch.diff || echo APPLY-FAILED
rm -rf $W/d; mkdir $W/d; cp /verif/seeded/$id/* $W/d/; rm -f $W/d/*.diff $W/d/meta.json
sed -n 1,60p /opt/vp/build.sh > $W/build.sh
( cd $W/repo/src/core && for c in release debug; do make >/dev/null 2>&1; break; done ) 
bash $W/d/demo.sh >/dev/null 2>&1; echo "$id demo with the bug: $?"
rm -rf "$W"
