import json, sys, collections
import os
p = "/verif/evidence/replay/%s.json" % sys.argv[1]
d = json.load(open(p))["violations"] if os.path.exists(p) else []
g = collections.OrderedDict()
for v in d:
    t = v['detail'].strip().splitlines()
    msg = (t[-1] if 'Traceback' in v['detail'] else t[0])[:160]
    if msg.strip() in ('AssertionError',):
        msg = ' '.join(t[-4:])[:200]
    g.setdefault(msg, []).append(v['case'])
for m, c in g.items():
    print(len(c), m, '|', c[:4])
