#!/bin/bash
# usage: tools/seed.sh ID PROP [CHECK...]: with the change made in /repo's working tree, record it as seeded/ID/patch.diff and confirm it; undoes it afterwards
id=$1; prop=$2; shift 2
d=/verif/seeded/$id
mkdir -p $d
if git -C /repo diff --quiet; then git -C /repo apply $d/patch.diff || exit 1; else git -C /repo diff > $d/patch.diff; fi
bash /tmp/rt.sh >/tmp/seed_rt.txt 2>&1 && echo "tests pass" || { echo "TESTS FAIL"; tail -3 /tmp/seed_rt.txt; }
cd /repo; bash $d/demo.sh >/tmp/seed_demo.txt 2>&1 && echo "DEMO PASSES WITH BUG" || echo "demo fails with bug"
cd /verif
for c in $prop "$@"; do timeout 900 ./check $c > /tmp/seed_chk.txt 2>&1; echo "$c rc=$? $(grep -c VIOLATION /tmp/seed_chk.txt) violations; $(grep -A1 VIOLATION /tmp/seed_chk.txt | sed -n 2p | cut -c1-150) $(tail -5 /tmp/seed_chk.txt | grep -o '[0-9.]*s$')"; done
git -C /repo checkout -- .
cd /repo; bash $d/demo.sh >/tmp/seed_demo.txt 2>&1 && echo "demo ok on clean" || { echo "DEMO FAILS ON CLEAN"; tail -3 /tmp/seed_demo.txt; }
