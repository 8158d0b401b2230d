"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO)."""
import json, os, subprocess, sys, tempfile, shutil
for path in sys.argv[1:]:
    s = {}
    exec(open(path).read(), s)
    d = "/verif/seeded/" + s["ID"]
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (tmp, tmp), shell=True)
    for f, old, new in s["EDITS"]:
        p = os.path.join(tmp, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["ID"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", tmp, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(tmp)
    open(d + "/demo.py", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH=/opt/vp/compat:$PWD TF_CPP_MIN_LOG_LEVEL=3\nexec python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
