#!/bin/bash
# mkseed.sh ID PKG: makes seeded/ID/patch.diff from the edits in /tmp/wt (a copy of /repo), with the demo files for PKG
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
[ -s $D/patch.diff ]
[ -f /verif/tools/demo_lib/h_test.go ] && cp /verif/tools/demo_lib/h_test.go $D/
sed "s#PKG#$2#g" /verif/tools/demo_lib/demo.sh > $D/demo.sh
git -C /tmp/wt checkout -q -- .
