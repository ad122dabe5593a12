#!/bin/bash
# run the development cases (textual variants of the repository) against the checks; cases.sh [PREFIX]
cd "$(dirname "$0")/cases"
if [ "$1" = --one ]; then f=$2; export R=/tmp/mutrepo.$3
  read ids file < <(head -1 "$f")
  out=$(tail -n +2 "$f" | N=${N:-300} python3 ../try.py "$ids" "$file" 2>&1); want=0; [[ $f == *.bad ]] && want=1
  bad=0; while read -r l; do [[ $l =~ ^[0-9]\  && ${l:0:1} != $want ]] && bad=1; [[ $l == *\ occurrences\ of\ * ]] && bad=1; done <<< "$out"
  [ $bad = 0 ] && echo "ok   $f" || { echo "FAIL $f"; echo "$out" | tail -${L:-6} | cut -c1-400; }
  exit
fi
ls ${1}*.ok ${1}*.bad 2>/dev/null | xargs -P 6 --process-slot-var=SLOT -I{} bash -c 'bash ../cases.sh --one "$1" $SLOT' _ {}
