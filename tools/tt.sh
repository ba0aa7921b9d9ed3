#!/bin/bash
# tools/tt.sh DIR OUT: builds and runs the stable tests of the regreg copy in DIR (not /repo); prints what is missing
D=$(realpath "$1"); OUT=$(realpath -m "$2")
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1 MPLBACKEND=agg JOBLIB_MULTIPROCESSING=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
PY=/opt/venv/bin/python
cd "$D" || exit 1
$PY setup.py build_ext --inplace --force > "$D/.build.log" 2>&1 || { tail -20 "$D/.build.log"; exit 1; }
REP=$(mktemp -d)
for i in 0 1 2 3 4 5 6 7; do
    timeout -k 10 780 $PY /opt/vp/run_nose.py $REP/$i.raw $i 8 -v --with-doctest --exclude='^set_seed_for_test$' regreg > $REP/$i.log 2>&1 &
done
wait
cat $REP/*.raw | $PY -c '
import sys, json
start, done, skip = set(), {}, set()
for line in sys.stdin:
    what, _, name = line.rstrip("\n").partition(" ")
    if what == "START": start.add(name)
    elif what == "SKIP": skip.add(name)
    else: done[name] = done.get(name, True) and what == "PASS"
for name in start - set(done) - skip: done[name] = False
json.dump({"passed": sorted(n for n in done if done[n])}, open(sys.argv[1], "w"))
' "$OUT"
rm -rf "$REP"
$PY - "$OUT" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed', 'pass', 'stable', 'tests'):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else [x for x in v if v[x] in (True, 'passed', 'pass')])
miss = sorted(passed(b) - passed(t))
print("MISSING", len(miss), miss[:8])
sys.exit(bool(miss))
P
