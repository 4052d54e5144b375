"""The Python binding declares exactly the C interface: compile-time witnesses generated from the binding's declarations."""
from pylib import *
import ast, re, warnings

B = "horus_api_build"


def run():
    p = PyCheck("P12", assumptions=["the data model of the build machine (LP64)"])
    c = p.ck
    c.trusted = ["clang's type checker and layout computation", "tools/pyabs (extracts the text passed to cdef and set_source)"]
    # what the build script declares
    I = p.engine()
    I.extra_roots.append(os.path.join(REPO, "horusdemodlib"))
    got = {"cdef": [], "src": []}
    I.ext["cffi.FFI"] = lambda I, a, k: mk("ffi", ty="ext")
    I.ext["method:ffi.cdef"] = lambda I, x, a, k: got["cdef"].append(a[0])
    def src(I, x, a, k):
        # by position: module name, C source
        got["src"].append({"source": a[1] if len(a) > 1 else k.get("source", ""), **{n: I.freeze(v) for n, v in k.items()}})
    I.ext["method:ffi.set_source"] = src
    I.ext["platform.system"] = lambda I, a, k: "Linux"
    try: I.load(B)
    except (IP.Broken, ops.Unknown) as e: raise CBroken("cannot evaluate the build script: %s" % e)
    cdef = "\n".join(str(x) for x in got["cdef"])
    if not got["cdef"] or len(got["src"]) != 1 or not all(isinstance(x, str) for x in got["cdef"]) or not isinstance(got["src"][0]["source"], str): raise CBroken("no cdef/set_source text found in the build script")
    s = got["src"][0]
    seq = lambda v: [e[1] for e in v[1:]] if isinstance(v, tuple) and v and v[0] == "list" else list(v or [])
    flags = [f for f in seq(s.get("extra_compile_args")) if isinstance(f, str)]
    incs = [i for i in seq(s.get("include_dirs")) if isinstance(i, str)]
    macros = [m for m in seq(s.get("define_macros")) if isinstance(m, tuple)]
    flags += ["-D%s%s" % (m[0], "=%s" % m[1] if m[1] is not None else "") for m in macros]
    dirs = ["-I" + os.path.normpath(os.path.join(REPO, d)) for d in incs]
    work = c.tmp

    def clang(name, text, extra):
        f = os.path.join(work, name)
        with open(f, "w") as o: o.write(text)
        return subprocess.run([CLANG, "-std=gnu11", "-fsyntax-only", "-ferror-limit=0", "-w"] + extra + [f], capture_output=True, text=True)

    def dump(name, text, extra=()):
        q = clang(name, text, ["-Xclang", "-ast-dump=json"] + list(extra))
        try: return json.loads(q.stdout), q
        except ValueError: raise CBroken("clang cannot parse %s: %s" % (name, q.stderr[-300:]))

    # the declarations: constants by text, everything else by clang's syntax tree
    plain = re.sub(r"/\*.*?\*/", " ", cdef, flags=re.S)
    plain = re.sub(r"//[^\n]*", " ", plain)
    consts = re.findall(r"^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]+(.*?)[ \t]*$", plain, re.M)
    body = plain
    tree, q = dump("cdef.c", "#include <stdint.h>\n#include <stddef.h>\n#line 1 \"cdef\"\n" + body)
    if q.returncode: raise CBroken("the binding's declarations are not C: " + q.stderr[:300])
    funcs, recs, tds = [], {}, []
    def cur(n, state):
        l = n.get("loc", {})
        for k in (l, l.get("expansionLoc", {}), l.get("spellingLoc", {})):
            if "file" in k or "presumedFile" in k: state["f"] = k.get("presumedFile", k.get("file"))
        return state["f"]
    st = {"f": ""}
    bynode = {}
    for n in tree["inner"]:
        f = cur(n, st)
        if n.get("isImplicit") or n["kind"] not in ("FunctionDecl", "RecordDecl", "TypedefDecl", "VarDecl", "EnumDecl"): continue
        if n.get("loc", {}).get("includedFrom") or n.get("loc", {}).get("spellingLoc", {}).get("includedFrom"): continue
        if n["kind"] == "FunctionDecl": funcs.append((n["name"], n["type"]["qualType"]))
        elif n["kind"] == "RecordDecl":
            bynode[n["id"]] = n
            if n.get("completeDefinition"): recs[n["id"]] = n
        elif n["kind"] == "TypedefDecl": tds.append(n)
        elif n["kind"] == "EnumDecl":
            for e in n.get("inner", []):
                if e["kind"] == "EnumConstantDecl": consts.append((e["name"], None))
        elif n["kind"] == "VarDecl": funcs.append((n["name"], n["type"]["qualType"]))
    fields = lambda n: [(e.get("name"), e["type"]["qualType"], e.get("isBitfield")) for e in n.get("inner", []) if e["kind"] == "FieldDecl"]
    # witnesses
    head = s["source"] + "\n#include <stddef.h>\n#include <stdint.h>\n"
    out, obs = [], {}
    def assertion(expr, rule, where, what):
        k = "W%d" % len(obs)
        obs[k] = (rule, where, what)
        out.append("#line %d \"%s\"\n_Static_assert(%s, \"%s\");" % (len(obs), k, expr, k))
    for n, v in consts:
        if v is None or v == "...": continue
        assertion("(%s) == (%s)" % (n, v), "constant", "constant " + n, "the binding says %s" % v)
    for n, t in funcs: assertion("__builtin_types_compatible_p(__typeof__(%s), __typeof__(%s))" % (n, decl_type(t)), "declaration", "function " + n, "the binding says %s" % t)
    structs = []
    named = {}
    for t in tds:
        own = [x for x in t.get("inner", []) if x["kind"] == "ElaboratedType"]
        rid = own[0].get("ownedTagDecl", {}).get("id") if own else None
        if rid in recs: named[rid] = t["name"]
        else: assertion("__builtin_types_compatible_p(%s, %s)" % (t["name"], t["type"]["qualType"]), "declaration", "type " + t["name"], "the binding says %s" % t["type"]["qualType"])
    nfields = {}
    for rid, n in recs.items():
        nm = named.get(rid) or n.get("tagUsed", "struct") + " " + n.get("name", "?")
        fs = fields(n)
        flex = any(f[0] is None for f in fs)
        cn = "binding_" + re.sub(r"\W", "_", nm)
        out.append("#line 1 \"B%s\"\n%s %s { %s };" % (cn, n.get("tagUsed", "struct"), cn, " ".join(field_decl(t, f) + ";" for f, t, b in fs)))
        me = n.get("tagUsed", "struct") + " " + cn
        for f, t, b in fs:
            if f is None: continue
            assertion("offsetof(%s, %s) == offsetof(%s, %s)" % (nm, f, me, f), "layout", "%s.%s" % (nm, f), "offset differs")
            assertion("__builtin_types_compatible_p(__typeof__(((%s*)0)->%s), __typeof__(((%s*)0)->%s))" % (nm, f, me, f), "layout", "%s.%s" % (nm, f), "the binding says %s" % t)
        assertion("sizeof(%s) == sizeof(%s)" % (nm, me), "layout", nm, "size differs")
        nfields[nm] = [f for f, t, b in fs]
    # a witness that does not compile at all names what is missing
    for cfg, fl in (("binding flags", flags), ("library flags", [])):
        q = clang("witness.c", head + "\n".join(out) + "\n", dirs + fl)
        bad = {}
        for line in q.stderr.splitlines():
            m = re.match(r"(?:.*/)?(W\d+|B\w+):\d+:\d+: (?:fatal )?error: (.*)", line)
            if m: bad.setdefault(m.group(1), m.group(2))
            elif ": error:" in line or "fatal error:" in line:
                bad.setdefault("?", line)
        if "?" in bad and len(bad) == 1: raise CBroken("the headers do not compile: " + bad["?"][:300])
        for k, (rule, where, what) in obs.items():
            p.ob(k not in bad, rule, where, "%s: %s (%s)" % (cfg, what, bad.get(k, "")))
        for k, m in bad.items():
            if k.startswith("B"): p.ob(False, "layout", k[9:], m)
        # fields the headers have and the binding does not
        ht, _ = dump("headers.c", head, dirs + fl)
        for n in ht["inner"]:
            if n["kind"] == "RecordDecl" and n.get("completeDefinition"):
                nm = n.get("tagUsed", "struct") + " " + n.get("name", "?")
                if nm in nfields: p.ob([f[0] for f in fields(n)] == nfields[nm], "layout", nm, "fields %s, the binding says %s" % ([f[0] for f in fields(n)], nfields[nm]))
    p.ob(len(funcs) >= 10 and len(consts) >= 10 and len(recs) >= 1, "covers", "declarations", "%d functions, %d constants, %d structures" % (len(funcs), len(consts), len(recs)))
    # every function the binding declares is defined in the sources it is built from, and every name the package uses is declared
    have = set()
    defs = []
    srcs = [x for x in seq(s.get("sources")) if isinstance(x, str)]
    def defined(f):
        q = subprocess.run([CLANG, "-S", "-emit-llvm", "-O0", "-w"] + dirs + flags + [os.path.normpath(os.path.join(REPO, f)), "-o", "-"], capture_output=True, text=True)
        if q.returncode: return None
        return set(re.findall(r"^define [^@\n]*@\"?([\w.]+)\"?\(", q.stdout, re.M))
    with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(defined, srcs))
    for f, r in zip(srcs, res):
        if r is None: raise CBroken("cannot compile " + f)
        have |= r
    for n, t in funcs: p.ob(n in have, "defined", "function " + n, "not defined in %s" % ", ".join(srcs))
    declared = {n for n, _ in funcs} | {n for n, _ in consts}
    types = dict(funcs)
    for f in sorted(glob_py()):
        for name, line, nargs in uses(f):
            w = "%s:%d uses %s" % (os.path.relpath(f, REPO), line, name)
            p.ob(name in declared, "used-names-declared", w, "the binding does not declare it")
            if nargs is not None and name in types:
                pr = types[name][types[name].index("(") + 1:-1].strip()
                n = 0 if pr in ("void", "") else len(pr.split(","))
                p.ob(nargs == n, "used-names-declared", w, "%d arguments instead of %d" % (nargs, n))
    return p.finish({"rule": "each declaration of the binding is type-compatible with, and laid out as, the declaration of the C headers; constants are equal", "declarations": len(obs), "functions": len(funcs), "constants": len(consts), "structures": sorted(nfields),
                     "witnesses": "static assertions compiled against the headers with the binding's flags and with the library's"})


def decl_type(t): return t
def field_decl(t, f): return "__typeof__(%s) %s" % (t, f)


def glob_py():
    d = os.path.join(REPO, "horusdemodlib")
    return [os.path.join(d, x) for x in os.listdir(d) if x.endswith(".py") and x != "horus_api_build.py"]


def uses(f):
    """(name, line, number of arguments if called) of every access to the binding's library object."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = ast.parse(open(f).read())
    al = set()
    def islib(n): return isinstance(n, ast.Attribute) and n.attr == "lib" and isinstance(n.value, ast.Name) and n.value.id in mods
    mods = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name == "_horus_api_cffi": mods.add(a.asname or a.name)
        if isinstance(n, ast.ImportFrom) and n.module == "_horus_api_cffi":
            for a in n.names:
                if a.name == "lib": al.add(a.asname or a.name)
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and islib(n.value):
            for g in n.targets:
                if isinstance(g, ast.Name): al.add(g.id)
    isl = lambda v: (isinstance(v, ast.Name) and v.id in al) or islib(v)
    called = {id(n.func): n for n in ast.walk(t) if isinstance(n, ast.Call)}
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and isl(n.value):
            k = called.get(id(n))
            yield n.attr, n.lineno, (len(k.args) if k is not None and not k.keywords and not any(isinstance(a, ast.Starred) for a in k.args) else None)


pymain(run)
