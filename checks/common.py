"""Shared driver code of the checks: IR generation from /repo's current tree, parallel runs of the
irabs abstract interpreter, reporting, known findings and evidence."""
import ast, atexit, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
IRABS = os.path.join(VERIF, "build", "irabs")
CLANG = "clang-18"
NPROC = min(8, os.cpu_count() or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1


class Broken(Exception):
    """The check cannot decide: an anchor vanished or a tool failed.  Exit status 2, never 0 or 1."""


class Check:
    def __init__(self, pid, level="proof", checker="", trusted=(), assumptions=()):
        self.pid, self.level, self.checker = pid, level, checker
        self.trusted, self.assumptions = list(trusted), list(assumptions)
        self.t0 = time.time()
        self.viol = {}            # key -> {rule, where, detail, count}
        self.obligations = 0
        self.failed = 0
        self.cov = {}
        self.notes = []
        self.broken = []          # parts that could not be decided: an error unless a violation was found anyway
        self.functions = set()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.tmp, True)

    # ---- recording -------------------------------------------------
    def ob(self, ok, rule, where, detail=""):
        """One obligation; `where` names the construct and identifies the violation."""
        self.obligations += 1
        if not ok:
            self.failed += 1
            self.violation(rule, where, detail)
        return ok

    def violation(self, rule, where, detail=""):
        k = (rule, where)
        if k in self.viol:
            self.viol[k]["count"] += 1
        else:
            self.viol[k] = {"rule": rule, "where": where, "detail": str(detail)[:600], "count": 1}

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # ---- C side ----------------------------------------------------
    def defines(self):
        return build_flags()

    def ir(self, names, flags=None, tag="", srcdir="src"):
        """Compile the named sources to LLVM IR; returns the .ll paths."""
        flags = build_flags() if flags is None else flags
        d = os.path.join(self.tmp, "ir" + tag)
        os.makedirs(d, exist_ok=True)

        def one(n):
            out = os.path.join(d, n.replace("/", "_").replace(".c", ".ll"))
            src = os.path.join(REPO, srcdir, n)
            if not os.path.exists(src):
                raise Broken("source file vanished: %s/%s" % (srcdir, n))
            cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-S", "-emit-llvm", "-w", "-I" + os.path.join(REPO, "src")] + flags + [src, "-o", out]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise Broken("clang failed on %s: %s" % (n, p.stderr[-500:]))
            return out
        with cf.ThreadPoolExecutor(NPROC) as ex:
            r = list(ex.map(one, names))
        self.cov.setdefault("source_files", [])
        for n in names:
            f = srcdir + "/" + n
            if f not in self.cov["source_files"]:
                self.cov["source_files"].append(f)
        return r

    def irabs(self, jobs, only=None, alarms=True, timeout=780, allow_missing=()):
        """jobs: argv lists for irabs.  `only`: the failure rules that belong to this property (None: all);
        `alarms`: whether memory/undefined-behaviour alarms are violations here.  Returns per-job stats."""
        if not os.path.exists(IRABS):
            raise Broken("irabs is not built (run setup_cmd)")

        def one(argv):
            try:
                p = subprocess.run(["/usr/bin/env", "bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", IRABS] + argv, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                return argv, None, "timeout"
            return argv, p, None
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, jobs))
        missing, broken = [], []
        for argv, p, err in res:
            name = " ".join(a for a in argv if not a.endswith(".ll"))
            if err:
                broken.append("irabs %s: %s" % (name, err))
                continue
            stats, other = None, 0
            for line in p.stdout.splitlines():
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if "broken" in j:
                    if any(m in j["broken"] for m in allow_missing):
                        missing.append(j["broken"]); stats = {}
                        self.note("anchor missing, coverage reduced: " + j["broken"])
                        continue
                    broken.append("irabs %s: %s" % (name, j["broken"]))
                    stats = {}
                if "stats" in j:
                    stats = j["stats"]
                elif "alarm" in j and alarms:
                    self.violation(j["alarm"], j.get("where", ""), (j.get("ctx", "") + " " + j.get("detail", "")).strip())
                elif "fail" in j:
                    if only is None or j["rule"] in only:
                        self.violation(j["rule"], j["fail"], j.get("detail", ""))
                    else:
                        other += 1
            if stats is None:
                broken.append("irabs %s: no result (exit %s) %s" % (name, p.returncode, p.stderr[-300:]))
                continue
            self.obligations += int(stats.get("obligations", 0)) - other
            self.failed += int(stats.get("failed", 0)) - other
            if alarms:
                self.obligations += int(stats.get("accesses", 0))
                self.failed += int(stats.get("alarms", 0))
            for k in ("steps", "forks", "joins"):
                self.count("abstract_" + k, int(stats.get(k, 0)))
            self.functions.update(stats.get("functions", []))
            self.count("analysis_runs")
        self.broken += broken
        return missing

    # ---- finish ----------------------------------------------------
    def finish(self, coverage=None):
        if coverage:
            self.cov.update(coverage)
        if self.obligations == 0 and not self.viol:
            raise Broken("no obligation was generated: an anchor vanished")
        kf = known_findings(self.pid)
        new, known = [], []
        for v in self.viol.values():
            k = next((f for f in kf if f["rule"] == v["rule"] and re.search(f["where"], v["where"]) and re.search(f.get("detail", ""), v["detail"])), None)
            (known if k else new).append((v, k))
        seen = set()
        for v, k in known:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        new = [v for v, _ in new]
        if self.broken and not new:
            raise Broken("; ".join(self.broken[:3]))
        for b in self.broken:
            self.note("not decided: " + b)
        discharged = max(0, self.obligations - self.failed)
        cov = {"obligations": self.obligations, "discharged": discharged, "checker_cmd": self.checker or ("python3 checks/%s.py" % self.pid),
               "trusted_base": self.trusted, "functions_analysed": sorted(self.functions)}
        cov.update(self.cov)
        if self.level == "other":
            cov.setdefault("explanation", self.checker)
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        evd = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if new:
            d = os.path.join(VERIF, "build", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "violations": new}, f, indent=1)
            for v in new[:20]:
                print("  [%s] %s%s" % (v["rule"], v["where"], (" -- " + v["detail"][:300]) if v["detail"] else ""))
            if len(new) > 20:
                print("  ... %d more, see the replay file" % (len(new) - 20))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s obligations=%d discharged=%d wall=%.1fs" % (self.pid, self.obligations, discharged, time.time() - self.t0))
        return 0


def build_flags():
    """The -D flags with which the project compiles the receive library (from the cffi build script)."""
    t = parse_py("horusdemodlib/horus_api_build.py")
    for n in ast.walk(t):
        if isinstance(n, ast.keyword) and n.arg == "extra_compile_args":
            try:
                v = ast.literal_eval(n.value)
            except ValueError:
                break
            return [x for x in v if x.startswith("-D") or x.startswith("-U")]
    raise Broken("extra_compile_args of the cffi build script not found")


def read(path):
    p = os.path.join(REPO, path)
    if not os.path.exists(p):
        raise Broken("file vanished: " + path)
    with open(p, "rb") as f:
        return f.read().decode("utf-8", "replace")


def parse_py(path):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ast.parse(read(path), path)
    except SyntaxError as e:
        raise Broken("cannot parse %s: %s" % (path, e))


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f).get("findings", []) if x["property"] == pid]


def main(fn):
    try:
        rc = fn()
    except Broken as e:
        print("CHECK-ERROR: " + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


ABSINT = ["tools/irabs (abstract interpreter over LLVM IR: transfer functions, GF(2) affine domain, memory model)",
          "clang-18 -O0 translation of the C sources to IR", "the reference definitions written in tools/irabs/main.cpp (Golay, CRC, interleaver, scrambler)"]
