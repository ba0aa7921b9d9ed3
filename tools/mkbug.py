"""mkbug(id, property, needs, breaks, edits=[(file, old, new)], demo=python source): writes /verif/seeded/<id>"""
import json, os, shutil, subprocess, tempfile

SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with the repository as working directory
export OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=agg
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
exec $PY -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def mkbug(id, prop, needs, breaks, edits, demo):
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    o = "/verif/seeded/" + id
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.py", "w").write(demo.lstrip("\n"))
    open(o + "/demo.sh", "w").write(SH)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
