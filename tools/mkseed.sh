#!/bin/bash
# mkseed.sh ID: makes /verif/seeded/ID/patch.diff from the difference of /tmp/sr to /repo's HEAD
# (or takes the one that is there), and confirms that the demonstration passes on /repo and
# fails on /tmp/sr.
d=/verif/seeded/$1
[ -f $d/util.rs ] && cp /verif/tools/kit/util.rs.txt $d/util.rs && cp /verif/tools/kit/kit.sh $d/
if git -C /tmp/sr diff --quiet; then git -C /tmp/sr apply $d/patch.diff || exit 1; else git -C /tmp/sr diff > $d/patch.diff; fi
(cd /repo && bash $d/demo.sh >/tmp/demo.ok 2>&1); a=$?
(cd /tmp/sr && bash $d/demo.sh >/tmp/demo.bad 2>&1); b=$?
echo "$1: unchanged $a, changed $b"; [ $a = 0 ] || tail -20 /tmp/demo.ok; [ $b = 3 ] && tail -8 /tmp/demo.bad; tail -1 /tmp/demo.bad
git -C /tmp/sr checkout -q -- .
