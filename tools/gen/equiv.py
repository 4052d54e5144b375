"""equiv.py FILE.py [CHECK ...]: runs checks on a scratch copy of /repo with behaviour-preserving rewrites applied; all must stay quiet.
FILE holds blocks:
  ### module path-in-repo
  def name(...): ...          replaces the function (or Class.method: '#### Class' line before) of that name; unknown names are put in front of it
  ### cfn path-in-repo
  #### name
  C code                      replaces the definition of that function
or, for small edits,
  ### edit path-in-repo
  old ==> new   (paragraphs separated by %% lines)"""
import ast, concurrent.futures, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
def nodes(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef): yield n.name, n
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef): yield n.name + "." + m.name, m
def mod(src, blk):
    cls, out = "", {}
    for part in re.split(r"^(#### .*)$", blk, flags=re.M):
        if part.startswith("#### "): cls = part[5:].strip(); cls = cls + "." if cls else ""; continue
        if not part.strip(): continue
        import textwrap
        t = ast.parse(textwrap.dedent(part)); lines = textwrap.dedent(part).splitlines(True)
        pend = []
        have = dict(nodes(ast.parse(src)))
        for i, n in enumerate(t.body):
            end = t.body[i + 1].lineno - 1 if i + 1 < len(t.body) else len(lines)
            if i + 1 < len(t.body) and getattr(t.body[i + 1], "decorator_list", None): end = t.body[i + 1].decorator_list[0].lineno - 1
            st = n.decorator_list[0].lineno if getattr(n, "decorator_list", None) else n.lineno
            seg = "".join(lines[st - 1:end])
            nm = cls + n.name if isinstance(n, ast.FunctionDef) else None
            if nm in have: out[nm] = pend + [seg]; pend = []
            else: pend.append(seg)
        if pend: print("not placed:", pend[0][:60])
    for nm, segs in out.items():
        n = dict(nodes(ast.parse(src)))[nm]
        ls = src.splitlines(True)
        ind = " " * n.col_offset
        st = n.decorator_list[0].lineno if n.decorator_list else n.lineno
        new = "".join(ind + l if l.strip() else l for s in segs for l in (s.rstrip("\n") + "\n\n").splitlines(True))
        src = "".join(ls[:st - 1]) + new + "".join(ls[n.end_lineno:])
    return src
def main():
    f, checks = sys.argv[1], sys.argv[2:]
    text = open(f).read()
    d = tempfile.mkdtemp(prefix="eq-")
    subprocess.run("cp -a /repo/. %s/ && rm -rf %s/.git" % (d, d), shell=True)
    for kind, path, blk in re.findall(r"^### (\w+) (\S+)\n(.*?)(?=^### |\Z)", text, re.M | re.S):
        p = os.path.join(d, path); s = open(p).read()
        if kind == "module": s = mod(s, blk)
        elif kind == "replace": s = blk
        elif kind == "cfn":
            for part in re.split(r"^(?=#### )", blk, flags=re.M):
                if not part.startswith("#### "): continue
                name, code = part[5:].split("\n", 1)
                m = re.search(r"^[A-Za-z_][^\n;{}]*\b%s\s*\([^;{}]*\)\s*\{.*?^\}" % re.escape(name.strip()), s, re.M | re.S)
                if not m: print("NOT APPLIED", name); continue
                s = s[:m.start()] + code.strip("\n") + s[m.end():]
        else:
            for e in blk.split("\n%%\n"):
                if "==>" not in e: continue
                a, b = e.split("==>"); a, b = a.strip("\n"), b.strip("\n")
                if a not in s: print("NOT APPLIED", a[:80]); continue
                s = s.replace(a, b, 1)
        open(p, "w").write(s)
        if path.endswith(".py"): ast.parse(s)
    if os.environ.get("EQ_KEEP"): print(d)
    if os.environ.get("EQ_DIFF"): subprocess.run(["diff", "-ru", "/repo/horusdemodlib", d + "/horusdemodlib"])
    if not checks: checks = sorted(c[:-3] for c in os.listdir(os.path.join(here, "../../checks")) if re.match(r"P\d+\.py", c))
    ev = tempfile.mkdtemp(prefix="eqev-")
    def go(c):
        p = subprocess.run([sys.executable, os.path.join(here, "../../checks", c + ".py")], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev), timeout=900)
        return c, p
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for c, p in ex.map(go, checks):
            ls = [l for l in p.stdout.splitlines() if l.strip()]
            bad = p.returncode or "undecided" in p.stdout.lower()
            try: ud = __import__("json").load(open(ev + "/" + c + ".json"))["coverage"].get("undecided", [])
            except Exception: ud = ["?"]
            if ud: print("   undecided", len(ud), "|", "; ".join(map(str, ud[:3]))[:500])
            print(c, p.returncode, "|", ("\n     ".join(l[:400] for l in ls[:6]) if p.returncode else ls[-1][:200] if ls else "") , p.stderr[-300:] if p.returncode not in (0, 1) else "", flush=True)
    if not os.environ.get("EQ_KEEP"): shutil.rmtree(d)
    shutil.rmtree(ev, ignore_errors=True)
main()
