"""Lists the fix: commits of /repo in known_findings.json (development helper); property by subject keyword."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "known_findings.json")
d = json.load(open(f)) if os.path.exists(f) else dict(known=[], fixed=[])
m = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in m:
            print("no property for:", s)
            continue
        out.append("fixed: property=%s %s %s" % (m[s], h, s))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
