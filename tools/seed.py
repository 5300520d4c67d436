#!/usr/bin/env python3
# builds /verif/seeded/<id> from the definitions in seeds/s_*.py and verifies each of them in a scratch copy:
# applies, builds, stable tests pass, demo 0 on the unchanged tree and nonzero with the change; reports the check's verdict.
# usage: seed.py [filter] [--fast]  (--fast: skip the stable tests)
import sys, os, subprocess, shutil, glob, json, re
here = os.path.dirname(os.path.abspath(__file__))
W, OUT = "/tmp/w-seed", "/verif/seeded"
def sh(cmd, cwd=None):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, cwd=cwd)
SE = []
def seed(id, prop, pkg, edits, test, needs, breaks): SE.append((id, prop, pkg, edits, test, needs, breaks))
for f in sorted(glob.glob(here + "/seeds/s_*.py")): exec(open(f).read())
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flt = args[0] if args else ""
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
W += "-" + (flt or "all"); shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W, symlinks=True)
bad = 0
for id, prop, pkg, edits, test, needs, breaks in SE:
    if flt and flt not in id: continue
    d = OUT + "/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("git checkout -q -- . && git clean -fdq", W)
    open(d + "/demo_test.go.txt", "w").write("// pkg: %s\n" % pkg + test.lstrip())
    shutil.copy(here + "/seeds/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    msg = []
    r0 = sh("bash %s/demo.sh" % d, W)
    if r0.returncode: msg.append("DEMO-FAILS-CLEAN " + (r0.stdout + r0.stderr)[-700:])
    ok = True
    for file, old, new in edits:
        s = open(W + "/" + file).read()
        if s.count(old) != 1: msg.append("EDIT matches %d times: %s" % (s.count(old), old[:50])); ok = False; continue
        open(W + "/" + file, "w").write(s.replace(old, new))
    diff = sh("git diff", W).stdout
    open(d + "/patch.diff", "w").write(diff)
    if ok:
        # lines our own fix commits added do not count
        first = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        orig = 0; rem = 0
        for file in {f for f, _, _ in edits}:
            bl = sh("git -C /repo blame -s -l HEAD -- " + file).stdout.split("\n")
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? .*\n((?:[ +\-\\].*\n?)*)", sh("git diff -- " + file, W).stdout, re.M):
                n = int(m.group(1))
                for l in m.group(3).split("\n"):
                    if l.startswith("-"):
                        rem += 1
                        msgs = sh("git -C /repo log -1 --format=%s " + bl[n-1].split()[0].lstrip("^")).stdout
                        if not msgs.startswith("fix:"): orig += 1
                    if l.startswith("-") or l.startswith(" "): n += 1
        if rem and not orig: msg.append("ONLY-FIX-LINES")
        b = sh(". /opt/vp/env.sh; cd %s; go build ./..." % W)
        if b.returncode: msg.append("NOBUILD " + b.stderr[:300])
        else:
            if "--fast" not in sys.argv:
                for k in range(3):
                    # the server tests listen on fixed ports: give them a network of their own
                    sh("rm -f W-o.json; . /opt/vp/env.sh; cd W; unshare -Urn bash -c 'ip link set lo up; go test -json -vet=off -count=1 -p 1 -timeout 10m ./...' > W-t.json; python3 /opt/vp/results.py W-o.json gojson:W-t.json".replace("W", W), W)
                    p = set(json.load(open(W + "-o.json"))["passed"])
                    miss = [t for t in base if t not in p]
                    if miss: msg.append("TESTS-FAIL %s" % miss[:4]); break
            r1 = sh("bash %s/demo.sh" % d, W)
            if r1.returncode == 0: msg.append("DEMO-PASSES-PATCHED")
            elif "FAIL" not in r1.stdout: msg.append("DEMO-ODD " + (r1.stdout + r1.stderr)[-300:])
            r = sh(". /verif/env.sh; mkdir -p W-out; CONIKSA_REPO=W CONIKSA_OUT=W-out /verif/bin/coniksa check all".replace("W", W))
            hit = re.findall(r"VIOLATION property=(\w+)", r.stdout)
            msg.append(("caught" if prop in hit else "MISSED") + " by %s" % hit)
    if any(not m.startswith("caught") and not m.startswith("MISSED") for m in msg): bad += 1
    print(id, prop, msg, flush=True)
shutil.rmtree(W, ignore_errors=True); shutil.rmtree(W + "-out", ignore_errors=True)
for x in ("-o.json", "-t.json"):
    if os.path.exists(W + x): os.remove(W + x)
print("invalid:", bad)
