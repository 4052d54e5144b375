"""Development helper: run each planted bug against the check of its property. usage: tryseeds.py [ID...]"""
import json, os, subprocess, sys
S = "/verif/seeded"
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
assert not sh("git -C /repo status --porcelain").stdout.strip()
for i in sorted(sys.argv[1:] or os.listdir(S)):
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    if not os.path.exists("/verif/checks/%s.py" % m["property"]): print(i, "no check"); continue
    try:
        p = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
        if p.returncode: print(i, "DOES NOT APPLY", p.stderr[:200]); continue
        p = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/%s.py" % m["property"])
        print("%-28s exit %d  %s" % (i, p.returncode, (p.stdout.strip().splitlines() or [p.stderr[-200:]])[0][:230]), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
