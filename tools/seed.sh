#!/bin/bash
# tools/seed.sh <id> : confirms the planted change in a scratch copy: demo passes without it, fails with it; then runs
# the given check against it.   tools/seed.sh <id> [check ids...]
. /opt/vp/env.sh
V=/verif; id=$1; shift
S=/tmp/seedcopy/$id
rm -rf /tmp/seedcopy/$id; mkdir -p /tmp/seedcopy
mkdir -p $S && rsync -a --exclude='/tests/**/target' --exclude='/examples/**/target' /repo/ $S/
cd $S && git checkout -q -- . 
(cd cli && cargo build --release --offline -q) || exit 3
bash $V/seeded/$id/demo.sh > $S.log 2>&1; a=$?
git apply $V/seeded/$id/patch.diff || exit 3
(cd cli && cargo build --release --offline -q 2>/dev/null) || { echo "$id does not build"; exit 3; }
bash $V/seeded/$id/demo.sh >> $S.log 2>&1; b=$?
echo "$id: demo unpatched=$a patched=$b $(tail -n 1 $S.log | cut -c1-150)"
for c in "$@"; do
  (cd $V && VERIF_REPO=$S VERIF_BUILD=/tmp/seedcopy/build_$id VERIF_EVIDENCE=/tmp/seedcopy/ev_$id ./check $c quick > $S.$c.log 2>&1; echo "   $c exit $? $(grep -m1 -E 'VIOLATION|CHECK ERROR|violation:' $S.$c.log | cut -c1-200)")
done
rm -rf /tmp/seedcopy/$id /tmp/seedcopy/build_$id /tmp/seedcopy/ev_$id
