#!/bin/bash
# tools/try_bug.sh ID [notest] [CHECKS...]: confirms seeded/ID in a scratch copy (tests pass, demo 0/nonzero) and runs checks on it
ID=$1; shift; NT=0; [ "$1" = notest ] && { NT=1; shift; }
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug.XXXX); cp -a /repo "$W/repo"
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
cd "$W/repo"
git -C "$W/repo" diff --name-only | grep -qE 'pyx|[.]c$' && (/opt/venv/bin/python setup.py build_ext --inplace --force > /dev/null 2>&1)
mkdir "$W/d"; cp "$S"/* "$W/d/"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
( cd "$W/repo" && bash "$W/d/demo.sh" > "$W/demo.out" 2>&1 ); echo "$ID: demo with bug: $? ($(tail -1 $W/demo.out | cut -c1-150))"
( cd /repo && bash "$W/d/demo.sh" > "$W/demo.out" 2>&1 ); echo "$ID: demo clean: $? $(tail -1 $W/demo.out| cut -c1-150)"
[ $NT = 0 ] && echo "$ID: $(bash /verif/tools/tt.sh "$W/repo" "$W/t.json" | tail -1)"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$P}; do
   MC_REPO=$W/repo /verif/check $c > "$W/c.out" 2>/dev/null; echo "$ID: check $c exit $? $(grep -m1 VIOLATION "$W/c.out")"; grep -m2 '::' "$W/c.out" | cut -c1-200
done
rm -rf "$W"
