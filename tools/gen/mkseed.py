"""Development helper: make a planted bug from a replacement and confirm it (builds, tests pass, demo fails only with it).
usage: mkseed.py SPECDIR   (SPECDIR has spec.json {id, property, needs, what_it_breaks, edits:[[file, old, new],...]}, demo.sh and its files)"""
import json, os, shutil, subprocess, sys
REPO, SEEDED = "/repo", "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(): return sh("bash /opt/vp/build.sh").returncode == 0
def demo(d):
    p = sh("cd /repo && timeout 280 bash %s/demo.sh" % d)
    return p.returncode, (p.stdout + p.stderr)[-600:]
d = os.path.abspath(sys.argv[1]); skip = "--notest" in sys.argv
s = json.load(open(d + "/spec.json"))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
try:
    assert build()
    r0 = demo(d)
    if r0[0]: print(s["id"], "DEMO FAILS UNPATCHED", r0); sys.exit(1)
    for f, old, new in s["edits"]:
        p = os.path.join(REPO, f); t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    if not skip:
        sh("bash /opt/vp/test.sh /tmp/s/out.json")
        res = json.load(open("/tmp/s/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [b for b in base if b not in res["passed"]]
        if bad: print(s["id"], "TESTS FAIL", bad[:4]); sys.exit(1)
    else: build()
    r1 = demo(d)
    if r1[0] == 0: print(s["id"], "DEMO PASSES PATCHED", r1[1]); sys.exit(1)
    o = os.path.join(SEEDED, s["id"]); os.makedirs(o, exist_ok=True)
    for f in os.listdir(d):
        if f != "spec.json": shutil.copy(os.path.join(d, f), o)
    open(o + "/patch.diff", "w").write(diff)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(o + "/meta.json", "w"), indent=1)
    print(s["id"], "CONFIRMED", r1[1][-150:].strip().replace("\n", " | "))
    sh("git -C /repo status --porcelain")
finally:
    sh("git -C /repo checkout -- .")
