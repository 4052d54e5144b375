"""mut.py CHECK FILE <<< edits: runs a check on a scratch copy of /repo with each edit applied (old ==> new, one per
paragraph, or separated by lines '%%'; several replacements in one paragraph separated by a line '&&').  Prints the verdict per edit."""
import os, shutil, subprocess, sys, tempfile
chk, f = sys.argv[1:3]
src = open(os.path.join("/repo", f)).read()
text = sys.stdin.read()
eds = [e for e in text.split("\n%%\n" if "\n%%\n" in text else "\n\n") if e.strip()]
here = os.path.dirname(os.path.abspath(__file__))
for e in eds:
    if "==>" not in e: print("NO ARROW", e[:100]); continue
    d = tempfile.mkdtemp(prefix="mut-")
    subprocess.run("cp -a /repo/. %s/ && rm -rf %s/.git" % (d, d), shell=True)
    s = src
    ok = True
    for r in e.strip("\n").split("\n&&\n"):
        a, b = r.split("==>")
        a, b = a.strip("\n "), b.strip("\n ")
        if not os.environ.get("MUT_RAW"): a, b = a.replace("\\n", "\n"), b.replace("\\n", "\n")
        if a not in s: ok = False
        s = s.replace(a, b, 1)
    open(os.path.join(d, f), "w").write(s)
    env = dict(os.environ, VERIF_REPO=d)
    if not ok: print("NOT APPLIED:", e[:100]); continue
    p = subprocess.run([sys.executable, os.path.join(here, "..", "..", "checks", chk + ".py")], capture_output=True, text=True, env=env, timeout=int(os.environ.get("MUT_TIMEOUT", "300")))
    last = [l for l in p.stdout.splitlines() if l.strip()]
    print(p.returncode, "|", e.replace("\n", " ")[:110], "|", (last[0][:230] if last else p.stderr[-300:]), flush=True)
    shutil.rmtree(d)
