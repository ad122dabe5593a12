#!/bin/bash
# every planted bug against its own check (no builds or demonstrations)
R=/tmp/seedchk; mkdir -p $R; [ -d $R/.git ] || cp -a /repo/. $R/; git -C $R fetch -q /repo HEAD; git -C $R checkout -q -f FETCH_HEAD
for d in /verif/seeded/${1}*/; do i=$(basename $d); git -C $R checkout -q -- .; git -C $R apply $d/patch.diff || { echo "NOAPPLY $i"; continue; }
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); VP_REPO=$R timeout 900 python3 /verif/check.py $p > /tmp/seedchk.out 2>&1; rc=$?
 [ $rc = 1 ] && echo "caught $i ($p)" || { echo "MISSED $i ($p) $rc"; tail -2 /tmp/seedchk.out | cut -c1-300; }; done; git -C $R checkout -q -- .
