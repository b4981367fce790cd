#!/bin/bash
# Development aid (not a check): try the checks against a changed copy of /repo.
#   trial.sh NAME PATCH|-revert COMMIT ID...
# Works in /tmp/trial/NAME, which it removes afterwards unless KEEP=1.
name=$1; patch=$2; shift 2
W=/tmp/trial/$name
rm -rf "/tmp/trial/$name"; mkdir -p $W
cp -a /repo $W/repo
mkdir $W/verif; cp -a /verif/check.sh /verif/harness $W/verif/ 2>/dev/null
cd $W/repo
if [ "$patch" = "-revert" ]; then c=$1; shift; git diff $c $c~1 | git apply || { echo "$name: revert failed"; exit 3; }
else git apply "$patch" || { echo "$name: patch failed"; exit 3; }; fi
sed -i "s#/repo/#$W/repo/#g" $W/verif/harness/Cargo.toml
sed -i "s#cd /repo #cd $W/repo #" $W/verif/check.sh
cd $W/verif; mkdir -p evidence replays
for id in "$@"; do
  out=$(bash check.sh $id 2>&1); rc=$?
  echo "$name $id rc=$rc $(echo "$out" | grep -m1 -A1 VIOLATION | cut -c1-300 | tr '\n' ' ') $( [ $rc = 2 ] && echo "$out" | tail -3)"
done
[ "$KEEP" = 1 ] || rm -rf "/tmp/trial/$name"
