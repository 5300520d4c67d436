#!/usr/bin/env python3
# Runs every check against every planted bug (in scratch copies) and writes the
# table of DESIGN.md section 9 to stdout.
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ)
for l in subprocess.run(["bash", "-c", ". %s/env.sh; env" % here], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition("=")
    env[k] = v
def one(d):
    n = os.path.basename(d)
    w = "/tmp/w-st-" + n
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
        e = dict(env, CONIKSA_REPO=w, CONIKSA_OUT=w + "/out-st", CONIKSA_KNOWN=here + "/known_findings.txt")
        r = subprocess.run([here + "/bin/coniksa", "check", "all"], cwd=here, env=e, capture_output=True, text=True)
        return n, sorted(set(re.findall(r"VIOLATION property=(C\d\d)", r.stdout)))
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for n, ids in ex.map(one, sorted(glob.glob(here + "/seeded/*"))):
        m = json.load(open(here + "/seeded/%s/meta.json" % n))
        own = m["property"]
        others = [i for i in ids if i != own]
        print("| %s | %s | %s | %s |" % (n[4:], own, ("**%s**" % own if own in ids else "MISSED") + "".join(", " + i for i in others), m["needs"]), flush=True)
