#!/usr/bin/env python3
# writes MANIFEST.json from the analyzer's list of checks and the texts below
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.run([here + "/bin/coniksa", "list"], capture_output=True, text=True, check=True).stdout.split()
props = {json.loads(l)["id"]: json.loads(l) for l in open(here + "/properties.jsonl")}
exec(open(here + "/tools/manifest_texts.py").read())
checks, na = [], []
for i in props:
    if i in ids:
        checks.append(dict(property=i, quick_cmd="./check.sh %s --tier quick" % i, thorough_cmd="./check.sh %s --tier thorough" % i,
                           technique=TECH[i], level="other", level_note=NOTE[i] + " " + COMMON))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash sa/build.sh", checks=checks, not_applicable=na,
         notes="One static analyzer (sa/, Go, go/ssa) decides every claimed property from /repo's source on each run; no hooks in /repo.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
