#!/bin/bash
# tools/seed.sh ID [CHECK...]: validate a planted bug in a private copy of /repo (mount namespace).
# Prints one line: patch/build/tests/demo on the unchanged and changed tree, and which checks report it.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
s=$here/seeded/$id
d=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$d/repo"
mkdir "$d/demo"; cp -a "$s/." "$d/demo/"; rm -f "$d"/demo/*.diff "$d"/demo/*.patch "$d/demo/meta.json"
prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
checks=${*:-$prop}
export d s here checks id prop
unshare -m bash -c '
mount --bind "$d/repo" /repo; cd /repo
r="$id:"
[ -n "$SKIPBASE" ] || { bash /opt/vp/build.sh >"$d/log" 2>&1 || r="$r BASEBUILD-FAILS"; timeout 300 bash "$d/demo/demo.sh" >"$d/base.out" 2>&1; x=$?; [ $x = 0 ] && r="$r base-ok" || { r="$r BASE-DEMO-FAILS($x)"; tail -5 "$d/base.out"; }; }
git -C /repo apply "$s/patch.diff" || { echo "$r PATCH-FAILS"; exit 1; }
bash /opt/vp/build.sh >"$d/log" 2>&1 && r="$r builds" || { r="$r BUILD-FAILS"; grep -E "error" "$d/log" | head; }
bash /opt/vp/test.sh "$d/t.json" >"$d/log" 2>&1; r="$r $(tail -1 "$d/log" | tr " " "_")"
timeout 300 bash "$d/demo/demo.sh" >"$d/new.out" 2>&1; x=$?; [ $x = 0 ] && r="$r DEMO-PASSES" || r="$r demo-fails($x)"
for c in $checks; do
  out=$(cd "$here" && VERIF_NOEVIDENCE=1 python3-vt check.py $c quick 2>&1); x=$?
  [ $x = 1 ] && r="$r caught-by-$c" || r="$r MISSED-BY-$c($x)"
  [ -n "$V" ] && echo "$out" | tail -${V} | cut -c1-300
done
echo "$r"
'
case "$d" in /tmp/seed.??????) rm -rf "$d";; esac
