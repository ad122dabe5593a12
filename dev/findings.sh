#!/bin/bash
# demonstrates the known findings on the real code, in a scratch copy: every test of findings/findings.rs has to fail
R=/tmp/findrepo; mkdir -p $R; [ -d $R/.git ] || cp -a /repo/. $R/; git -C $R fetch -q /repo HEAD; git -C $R checkout -q -f FETCH_HEAD
cp "$(dirname "$0")/findings/findings.rs" $R/src/testing/findings.rs; echo "#[cfg(test)] mod findings;" >> $R/src/testing/mod.rs
cd $R; export PATH=/root/.cargo/bin:$PATH; timeout 300 cargo test --offline --locked testing::findings:: > /tmp/findings.out 2>&1
grep -E "^error|^test .*(ok|FAILED)$" /tmp/findings.out | sort; rm -f $R/src/testing/findings.rs; git -C $R checkout -q -- .
