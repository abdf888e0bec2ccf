#!/bin/bash
# try_change.sh NAME CHANGE PROP...   runs checks against a scratch copy of /repo with a change applied
# CHANGE: revert:<commit> or a patch file
set -u
name=$1 change=$2
shift 2
d=/tmp/try.$name
rm -rf "$d"
mkdir -p "$d"
git -C /repo archive HEAD | tar -x -C "$d"
cd "$d" || exit 9
git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x
case $change in
revert:*) git -C /repo show "${change#revert:}" | git apply -R --3way - 2>/tmp/try.$name.err || git -C /repo show "${change#revert:}" | patch -R -p1 -s || { echo "$name: cannot revert"; rm -rf "$d"; exit 9; } ;;
*) git apply "$change" || { echo "$name: cannot apply"; rm -rf "$d"; exit 9; } ;;
esac
for p in "$@"; do
    out=$(cd /verif && ION_REPO=$d ION_MC_BUILD=/tmp/try.$name/.mc ION_MC_EVIDENCE=/tmp/try.$name/.ev python3 run.py $p 2>&1)
    rc=$?
    echo "$name $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations: $(echo "$out" | grep '^  section' | head -2 | cut -c1-220 | tr '\n' ' ')"
    [ $rc -gt 1 ] && echo "$out" | tail -5
done
rm -rf "$d" /tmp/try.$name.err
