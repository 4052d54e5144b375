"""Shared part of the Python checks: runs the abstract interpreter of tools/pyabs on the repository's modules and compares
what it computes with reference rules."""
import os, signal, sys, time
from common import *
from common import main as _cmain, Broken as CBroken
sys.path.insert(0, os.path.join(VERIF, "tools", "pyabs"))
import vals, ops, interp as IP, models as MD, compare as CM
from vals import *
from ops import LEN, u, fmt, concat, slice_
from interp import Interp, Rec, Ext, Fn, Meth, St, Dead
from compare import Cmp, describe

PYABS = ["tools/pyabs (abstract interpreter for the Python subset used by the repository; models of the library calls listed in DESIGN.md)",
         "the reference rules in checks/ref and in this check"]


class OverTime(BaseException):
    pass


def engine(models=None, unroll=3, refs=()):
    I = Interp(REPO, unroll=unroll, models=models)
    I.extra_roots = [os.path.join(VERIF, "checks", "ref")]
    return I


class Act:
    """One abstract activation of a function: normal result and raise exits."""
    def __init__(self, I, f, args=(), kw=None, pre=None):
        self.I = I
        base = I.st
        I.st = base.fork(base.pc)
        I.exits, I.limits, I.seqs = [], [], {}
        I.own(I.fx).items = []
        try:
            if pre: pre()
            self.ret = I.call(f, list(args), dict(kw or {}))
            self.pc = I.st.pc
            self.st = I.st
        except Dead:
            self.ret, self.pc, self.st = None, False, I.st
        self.raises = [(v.name, v.arg, st) for k, v, st in I.exits if k == "raise"]
        self.limits = list(I.limits)
        I.exits, I.limits = [], []
        I.st = base

    def at(self, fn, st=None):
        I = self.I
        save, I.st = I.st, (st or self.st)
        I.st = I.st.fork(I.st.pc)
        try: return fn()
        finally: I.st = save

    def raised(self, name=None):
        """Condition under which an exception (of class `name`) leaves the function."""
        r = False
        for n, a, st in self.raises:
            if name is None or n == name: r = or_(r, st.pc)
        return r

    def outcome(self):
        """Gated: 'return' / exception class name / ABSENT (bound exceeded)."""
        r = ABSENT
        for n, a, st in self.raises: r = ite(st.pc, exc_kind(n), r)
        return ite(self.pc, "return", r) if self.pc is not False else r

    def keys(self):
        """Keys the returned dictionary may have."""
        out = {}
        def go():
            for c, x in leaves(self.ret):
                if isinstance(x, Ref):
                    for k, v in self.I.rec(x).m.values():
                        if v is not ABSENT: out[key(k)] = k
        if self.pc is not False: self.at(go)
        return list(out.values())

    def item(self, k, obj=None):
        """Value of key k in the returned dictionary, ABSENT where missing; frozen."""
        o = self.ret if obj is None else obj
        def go():
            def f(x):
                if isinstance(x, Ref) and self.I.rec(x).m is not None: return self.I.freeze(self.I.dget(self.I.rec(x), k))
                return ABSENT
            return IP.gmap1(f, o)
        return self.at(go)

    def frozen(self, v=None):
        return self.at(lambda: self.I.freeze(self.ret if v is None else v))

    def after(self):
        """State after the activation, however it ended."""
        m = self.I.merge([(self.st, None)] * (self.pc is not False) + [(st, None) for n, a, st in self.raises])
        if m is None: raise Dead()
        return m[0]

    def effects(self, *kinds):
        """[(condition, args)] of the recorded effects in the normal exit state."""
        return self.effects_at(self.st, *kinds)

    def effects_at(self, st, *kinds):
        r = st.heap[self.I.fx.id]
        out = []
        for g, v in r.items:
            for c, x in leaves(v):
                if isinstance(x, tuple) and (not kinds or x[0] in kinds): out.append((and_(g, c), x))
        return out


def exc_kind(n):
    """Exception class as seen by a caller that distinguishes ValueError from everything else."""
    c = IP.exc_class(n)
    if c is not None and issubclass(c, ValueError): return "ValueError"
    return n


def members(frozen):
    """Presence condition per distinct element of a frozen list (order and multiplicity ignored)."""
    out = {}
    def add(c, v):
        for cc, x in leaves(v):
            k = key(x)
            out[k] = (x, or_(out[k][1] if k in out else False, and_(c, cc)))
    for c, x in leaves(frozen):
        if isinstance(x, tuple) and x and x[0] in ("list", "deque", "set", "iter"):
            for g, v in x[1:]: add(and_(c, g), v)
        elif isinstance(x, tuple):
            for v in x: add(c, v)
    return out


class PyCheck:
    """Collects comparison results of one property."""
    def __init__(self, pid, pools=None, tries=60, assumptions=(), level="proof"):
        self.ck = Check(pid, level, "python3 checks/%s.py" % pid, PYABS, list(assumptions))
        self.cmp = Cmp(pools=pools, tries=tries)
        self.engines = []
        self.und = []
        self.t0, self.budget, self.slice = time.time(), 12000 if THOROUGH else 500, 1200 if THOROUGH else 90

    def engine(self, **k):
        I = engine(**k)
        self.engines.append(I)
        return I

    def same(self, code, rule_val, under, rule, where, detail=""):
        """Obligation: code == rule_val wherever `under` holds."""
        n = len(self.cmp.undecided)
        d = self.cmp.diff(code, rule_val, under, rule + " " + where)
        self.ck.ob(d is None, rule, where, (detail + " " + describe(d)) if d else detail)
        if d is None and len(self.cmp.undecided) > n: self.ck.failed += 1      # neither discharged nor violated
        return d is None

    def same_members(self, code, rule_val, under, rule, where):
        """Obligation: the same elements, in any order."""
        a, b = members(code), members(rule_val)
        for k in {**a, **b}:
            x = (a.get(k) or b.get(k))[0]
            self.same(a[k][1] if k in a else False, b[k][1] if k in b else False, under, rule, "%s, element %s" % (where, show(x)))

    def table(self, code, rule_val, envs, rule, where):
        """Obligation: the two gated values evaluate alike under every assignment of their base terms in envs."""
        if same(code, rule_val): return self.ob(True, rule, where) or True
        def val(ev, v):
            try: return ev(v)
            except (ValueError, TypeError, KeyError, IndexError, OverflowError, ZeroDivisionError, AttributeError) as e: return ("error", type(e).__name__)
        und = None
        for env in envs:
            ev = CM.Ev(env)
            try: x, y = val(ev, code), val(ev, rule_val)
            except CM.Need as e:
                und = show(e.args[0])
                break
            if not CM.close(x, y):
                self.ob(False, rule, where, "%s: %s instead of %s" % (", ".join("%s=%s" % (show(k), v) for k, v in env.items()), x, y))
                return False
        self.ob(True, rule, where)
        if und is not None:
            self.cmp.undecided.append((rule + " " + where, "depends on " + und))
            self.ck.failed += 1
        return True

    def never(self, c, rule, where, detail=""): return self.same(c, False, True, rule, where, detail)

    def ob(self, ok, rule, where, detail=""): self.ck.ob(ok, rule, where, detail)

    def run(self, name, fn):
        """One scenario; constructs the engine has no rule for, and scenarios over the time limit, leave it undecided
        (recorded, never reported)."""
        left = self.budget - (time.time() - self.t0)
        if left < 2:
            self.und.append("%s: time budget of the check used up" % name)
            return None
        def late(*_): raise OverTime()
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(int(min(left, self.slice)) + 1)
        try: return fn()
        except OverTime:
            self.und.append("%s: time limit" % name)
        except (IP.Broken, ops.Unknown) as e:
            if "not found" in str(e): raise CBroken(str(e))
            self.und.append("%s: %s" % (name, e))
        except RecursionError:
            self.und.append("%s: recursion limit" % name)
        except (CBroken, KeyboardInterrupt): raise
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"): raise
            import traceback
            self.und.append("%s: analyser error %s: %s (%s)" % (name, type(e).__name__, e, traceback.format_exc().strip().splitlines()[-2].strip()))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def finish(self, coverage=None):
        cov = dict(coverage or {})
        fns, stm, calls, unk = set(), 0, 0, {}
        for I in self.engines:
            fns |= {f for f in I.stats["functions"] if not f.startswith("ref_")}
            stm += len([1 for m, l in I.stats["statements"] if not m.startswith("ref_")])
            calls += I.stats["calls"]
            for k, v in I.unknown.items(): unk[k] = unk.get(k, 0) + v
        self.ck.functions.update(sorted(fns))
        cov.update({"statements_analysed": stm, "call_sites_evaluated": calls, "comparisons": self.cmp.compared, "unmodelled_calls": unk})
        if self.und:
            cov["undecided_scenarios"] = self.und[:30]
            for x in self.und[:5]: print("UNDECIDED " + x[:300])
            if not self.ck.obligations: self.ck.obligations = self.ck.failed = 1
        if self.cmp.undecided: cov["undecided"] = ["%s: %s" % x for x in self.cmp.undecided[:30]]
        return self.ck.finish(cov)


def pymain(fn):
    """Entry point: constructs the engine has no rule for leave the property undecided (exit 0, said so in the evidence)."""
    def run():
        try:
            try: return fn()
            except IP.Broken as e: raise CBroken(str(e))
            except ops.Unknown as e: raise CBroken("unsupported construct: %s" % e)
        except CBroken as e:
            raise
    _cmain(run)
