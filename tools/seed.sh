#!/bin/bash
# seed.sh ID [--catch]   confirm a planted bug in a scratch copy: builds, tests pass, demo 0 -> nonzero
# (development aid; no check uses it)
set -u
ID=$1; S=/verif/seeded/$ID
cp /verif/tools/seedlib.py $S/lib.py
[ -e $S/demo.sh ] || printf '#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n' > $S/demo.sh
chmod +x $S/demo.sh
W=/tmp/seedwork; [ -d $W ] || cp -a /repo $W
git -C $W checkout -q -f HEAD 2>/dev/null; git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD
. /opt/vp/env.sh 2>/dev/null
cd $W
if [ ! -e /tmp/seedwork.base.$(git rev-parse HEAD) ]; then cargo build --offline -q 2>/dev/null && cp target/debug/cargo-call-stack /tmp/seedwork.base.$(git rev-parse HEAD); fi
rm -rf /tmp/seedorig; mkdir -p /tmp/seedorig/target/debug; cp /tmp/seedwork.base.$(git rev-parse HEAD) /tmp/seedorig/target/debug/cargo-call-stack
(cd /tmp/seedorig && sh $S/demo.sh) > /tmp/seed.o1 2>&1; R1=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
cargo build --offline -q 2>/tmp/seed.build || { echo "$ID: does not build"; tail -20 /tmp/seed.build; git checkout -q -f; exit 1; }
sh $S/demo.sh > /tmp/seed.o2 2>&1; R2=$?
if [ "${2:-}" != --notest ]; then
cargo test --offline > /tmp/seed.test 2>&1; RT=$?
else RT=skipped; fi
git checkout -q -f
echo "$ID: demo orig=$R1 patched=$R2 tests=$RT $(grep -h 'test result' /tmp/seed.test | awk '{p+=$4;f+=$6} END{print p" passed "f" failed"}')"
[ $R1 = 0 ] || head -5 /tmp/seed.o1
head -3 /tmp/seed.o2
