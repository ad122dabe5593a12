#!/bin/bash
# Compiles demo.rs as an extra test module of a scratch copy of the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/crate" "$work/scratch" "$work/scratch/inspect_output"
tar cf - --exclude=./target --exclude=./.git . | tar xf - -C "$work/crate"
cp "$here/demo.rs" "$work/crate/src/vp_demo.rs"
printf '\n#[cfg(test)]\nmod vp_demo;\n' >> "$work/crate/src/main.rs"
cd "$work/crate" || exit 2
export CARGO_NET_OFFLINE=true VP_SCRATCH="$work/scratch"
unset CARGO_TARGET_DIR
timeout 280 cargo test --offline --locked vp_demo -- --test-threads=1 > "$work/log" 2>&1
rc=$?
tail -25 "$work/log" | cut -c1-300
grep -q 'test vp_demo::' "$work/log" || { echo "the demonstration did not run"; exit 3; }
exit $rc
