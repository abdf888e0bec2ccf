#!/bin/bash
# check_seed.sh ID [nochecks]   confirms a planted bug: demo passes without it, tests pass with it, demo fails with it, and runs its property's check
id=$1
s=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
w=/tmp/seed.$id
rm -rf "$w"; mkdir -p "$w"
cp -r "$s" "$w/d"; rm -f "$w"/d/*.diff "$w"/d/meta.json
git -C /repo apply --check "$s/patch.diff" || { echo "$id: does not apply"; exit 9; }
# changed lines must be original
git -C /repo archive HEAD | (mkdir "$w/r" && tar -x -C "$w/r")
( cd "$w/r" && bash "$w/d/demo.sh" ) > "$w/clean.log" 2>&1; c=$?
( cd "$w/r" && git init -q . 2>/dev/null && git apply "$s/patch.diff" && bash "$w/d/demo.sh" ) > "$w/bug.log" 2>&1; b=$?
git -C /repo apply "$s/patch.diff" && bash /opt/vp/build.sh > "$w/build.log" 2>&1; br=$?
t=$(bash /opt/vp/test.sh "$w/out.json" 2>&1 | tail -1)
git -C /repo checkout -q -- .
echo "$id ($prop): demo clean=$c bug=$b build=$br tests: $t | $(tail -2 $w/bug.log | tr '\n' ' ' | cut -c1-200)"
[ "$c" != 0 ] && tail -5 "$w/clean.log"
rm -rf "$w"
[ "$2" = nochecks ] || /verif/tools/try_change.sh s$id "$s/patch.diff" $prop
