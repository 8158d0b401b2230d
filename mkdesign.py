"""Writes DESIGN.md: doc/head.md, doc/props.md, the findings and the planted changes."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
rd = lambda f: open(os.path.join(here, f)).read()
out = [rd("doc/head.md").rstrip() + "\n\n", rd("doc/props.md").rstrip() + "\n\n"]
kf = json.load(open(os.path.join(here, "known_findings.json")))
out.append("## Defects found and recorded (not repaired)\nEach is listed in `known_findings.json` with the key of the case that shows it; the check prints KNOWN-FINDING for exactly that case.\n\n")
out += ["* %s `%s`: %s\n" % (k["property"], k["key"], k["what"]) for k in kf if k["status"] != "fixed"]
out.append("\n## Defects found and repaired (`fix:` commits in /repo)\n\n")
out += ["* %s\n" % k["what"] for k in kf if k["status"] == "fixed"]
out.append("\n## Planted changes and what catches them\nEvery one passes the stable tests; its demo fails with it and passes without.\n\n| change | property | caught by | needs |\n|---|---|---|---|\n")
for m in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    j = json.load(open(m))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), j["property"], j.get("caught_by", j["property"] + " quick"), j["needs"].replace("|", "/").replace("\n", " ")))
if os.path.exists(os.path.join(here, "doc/tail.md")):
    out.append("\n" + rd("doc/tail.md"))
open(os.path.join(here, "DESIGN.md"), "w").write("".join(out))
