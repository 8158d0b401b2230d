"""addfinding.py known|fixed PROPERTY KEY_OR_COMMIT WHAT: development helper; never called by a check."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")
d = json.load(open(f))
st, pid, key, what = sys.argv[1:5]
if st == "fixed":
    e = dict(property=pid, status="fixed", key="", commit=key, what="fixed: property=%s %s %s" % (pid, key, what))
else:
    e = dict(property=pid, status="known", key=key, what=what)
d.append(e)
json.dump(d, open(f, "w"), indent=1)
