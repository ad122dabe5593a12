#!/bin/bash
# all claimed checks on the repository (VP_REPO), in parallel; prints what is not quiet
cd /verif; ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
python3 check.py S01 >/dev/null
for i in $ids; do echo $i; done | xargs -P8 -I{} sh -c 's=$(date +%s); timeout 900 python3 check.py {} > /tmp/allchk.{} 2>&1; rc=$?; e=$(( $(date +%s) - s )); echo "{} $rc ${e}s"' > /tmp/allchk.out
grep -v " 0 " /tmp/allchk.out | while read i rc t; do echo "$i $rc"; tail -2 /tmp/allchk.$i | cut -c1-400; done
sort -t' ' -k3 -V /tmp/allchk.out | tail -5 | tr '\n' ' '; echo
