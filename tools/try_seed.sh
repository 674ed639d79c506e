#!/bin/bash
# try_seed.sh ID [CHECK...]: in private mounts of scratch copies of /repo and /verif, checks that seeded/ID builds, passes the
# stable tests and that its demonstration tells the two trees apart; then runs the given checks against it (SEED, TIER from the environment).
ID=$1; shift
W=/tmp/sb/try.$ID.$$; mkdir -p $W
cp -a /repo $W/repo; mkdir $W/verif
(cd /verif && cp -a *.py *.txt *.json* harness oracle tools $W/verif/); cp -a /verif/seeded/$ID $W/seed
export SEED=${SEED:-1} TIER=${TIER:-quick}
unshare -m bash -c '
W=$1; shift; mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
if [ -z "$SKIP" ]; then
timeout 300 bash $W/seed/demo.sh >$W/d0 2>&1; a=$?
git apply $W/seed/patch.diff || { echo "$ID: DOES NOT APPLY"; exit 1; }
bash /opt/vp/test.sh $W/o.json >$W/t 2>&1; t=$?
timeout 300 bash $W/seed/demo.sh >$W/d1 2>&1; b=$?
echo "'$ID': demo clean=$a patched=$b tests: $(tail -1 $W/t)"
[ $a = 0 ] || tail -5 $W/d0; [ $b != 0 ] || tail -5 $W/d1; grep -q "0 failed" $W/t || grep -E "error|FAILED|failed" $W/t | head -5
else git apply $W/seed/patch.diff; fi
cd /verif; for c in "$@"; do
s=$(date +%s); VERIF_SEED=$SEED VERIF_TIER=$TIER python3 check.py $c $TIER >$W/c 2>&1; r=$?
echo "'$ID': $c exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $W/c) $(grep -m1 -A3 -iE "violat|viol:" $W/c | cut -c1-220 | tr "\n" " ")"; [ $r = 0 -o $r = 1 ] || tail -5 $W/c
done' x $W "$@"
rm -rf "$W"
