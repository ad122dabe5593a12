#!/bin/bash
# batch.sh FILE IDS: every change in /tmp/b tried against the checks
for k in $(ls /tmp/b | sort -n); do echo "== $k"; N=${N:-110} R=/tmp/tryr timeout 600 python3 dev/try.py $2 $1 < /tmp/b/$k 2>&1 | grep -v '^VIOL' | cut -c1-${N:-110} | grep . | head -8; done
