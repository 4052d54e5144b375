"""pyabs: abstract interpreter for Python source. One pass over each function computes, for every variable, container
slot, return value, exception and externally visible effect, a gated value (the value under every condition); branches
are joined, never enumerated, and no solver is involved."""
import warnings, ast, os, builtins, math
from vals import *
import ops
from ops import *


VALTY = {}      # type of the values of an open dictionary


class Dead(Exception):
    """The current state is unreachable."""


class Broken(Exception):
    """The source does not have the shape the analysis needs."""


class Rec:
    __slots__ = ("kind", "m", "items", "base", "cls", "name", "id")
    def __init__(self, kind, m=None, items=None, base=None, cls=None, name=""):
        self.kind, self.m, self.items, self.base, self.cls, self.name = kind, m, items, base, cls, name
    def copy(self):
        return Rec(self.kind, dict(self.m) if self.m is not None else None, list(self.items) if self.items is not None else None, self.base, self.cls, self.name)


class Ext:
    """Name in an external library or builtin."""
    _all = {}
    __slots__ = ("name",)
    def __new__(cls, name):
        e = cls._all.get(name)
        if e is None:
            e = object.__new__(cls); e.name = name; cls._all[name] = e
        return e
    def __repr__(self): return "<%s>" % self.name


class Fn:
    __slots__ = ("node", "scopes", "defaults", "kwdefaults", "name", "mod", "isgen", "locals_", "globals_", "nonlocals", "keep", "kind")
    def __repr__(self): return "<function %s>" % self.name


class Meth:
    """Bound method: a repository function or a builtin method name bound to a receiver leaf."""
    _all = {}
    __slots__ = ("fn", "self_")
    def __new__(cls, fn, s):
        k = (fn, key(s))
        e = cls._all.get(k)
        if e is None:
            e = object.__new__(cls); e.fn, e.self_ = fn, s; cls._all[k] = e
        return e
    def __repr__(self): return "<method %r of %r>" % (self.fn, self.self_)


class St:
    __slots__ = ("pc", "heap")
    def __init__(self, pc, heap): self.pc, self.heap = pc, heap
    def fork(self, pc): return St(pc, dict(self.heap))


class Frame:
    __slots__ = ("scopes", "fn", "yields", "mod")
    def __init__(self, scopes, fn, mod): self.scopes, self.fn, self.mod, self.yields = scopes, fn, mod, None


EXTRA_EXC = {"binascii.Error": ValueError, "struct.error": Exception, "json.JSONDecodeError": ValueError, "json.decoder.JSONDecodeError": ValueError,
             "socket.error": OSError, "socket.timeout": OSError, "queue.Empty": Exception, "queue.Full": Exception,
             "requests.RequestException": OSError, "requests.exceptions.RequestException": OSError, "requests.exceptions.ConnectionError": OSError,
             "requests.exceptions.Timeout": OSError, "requests.ConnectionError": OSError, "requests.Timeout": OSError,
             "configparser.Error": Exception, "configparser.NoOptionError": Exception, "configparser.NoSectionError": Exception,
             "asn1tools.DecodeError": Exception, "asn1tools.ConstraintsError": Exception, "asn1tools.EncodeError": Exception, "asn1tools.codecs.DecodeError": Exception,
             "audioop.error": Exception}


def exc_class(name):
    if name in EXTRA_EXC: return EXTRA_EXC[name]
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException): return c
    return None


class Interp:
    def __init__(self, root, unroll=3, maxdepth=40, models=None):
        self.root, self.extra_roots = root, []
        self.unroll = unroll
        self.st = St(True, {})
        self.next = 1
        self.exits = []
        self.limits = []
        self.frames = []
        self.modules = {}
        self.models = dict(models or {})
        self.before = {}                 # "mod.fn": called with the bound arguments on every call of the function
        self.attrs = {}
        self.maxdepth = maxdepth
        self.unknown = {}
        self.stats = {"functions": set(), "statements": set(), "calls": 0, "branches": 0}
        self.seqs = {}
        self.fx = self.alloc(Rec("list", items=[]))
        self.user_exc = {}
        self.loop_k = None
        import models as M
        self.M = M
        M.install(self)

    # ---------------------------------------------------------------- heap
    def alloc(self, rec):
        i = self.next; self.next += 1
        rec.id = i
        self.st.heap[i] = rec
        return Ref(i)

    def rec(self, ref): return self.st.heap[ref.id]

    def own(self, ref):
        """Writable copy of a record in the current state."""
        r = self.st.heap[ref.id].copy()
        self.st.heap[ref.id] = r
        return r

    def newlist(self, vals, kind="list"): return self.alloc(Rec(kind, items=[(True, v) for v in vals]))
    def newdict(self, pairs=(), base=None):
        m = {}
        for k, v in pairs: m[key(k)] = (k, v)
        return self.alloc(Rec("dict", m=m, base=base))

    def seq(self, kind):
        """Running number per kind of external value, restarted for every analysed activation."""
        self.seqs[kind] = self.seqs.get(kind, 0) + 1
        return self.seqs[kind]

    def unk(self, name, ty="unk"): return mk("unk", "%s#%d" % (name, self.seq("unk " + name)), ty=ty)

    def freshatom(self, name): return cond(mk("sym", "%s#%d" % (name, self.seq("atom " + name)), ty="bool"))

    # ---------------------------------------------------------------- states
    def merge(self, parts):
        """[(state, value)] with disjoint path conditions -> (state, value)."""
        parts = [p for p in parts if p[0].pc is not False]
        if not parts: return None
        acc, val = parts[0]
        for st, v in parts[1:]:
            pc = or_(acc.pc, st.pc)
            c = constrain(st.pc, pc)
            val = ite(c, v, val) if not (val is None and v is None) else None
            h = acc.heap
            out = dict(h)
            for i, r in st.heap.items():
                o = h.get(i)
                if o is r: continue
                out[i] = r if o is None else self.merge_rec(c, r, o)
            acc = St(pc, out)
        return acc, val

    def merge_rec(self, c, a, b):
        """a where c, b elsewhere."""
        if a.kind != b.kind:
            raise Unknown("merge of %s with %s" % (a.kind, b.kind))
        r = Rec(a.kind, cls=a.cls if a.cls is not None else b.cls, name=a.name)
        if a.m is not None:
            r.base = a.base if a.base is b.base or same(a.base, b.base) else ite(c, a.base, b.base)
            m = {}
            for k in list(b.m) + [k for k in a.m if k not in b.m]:
                kk = (a.m.get(k) or b.m.get(k))[0]
                x = a.m[k][1] if k in a.m else self.base_get(a.base, kk)
                y = b.m[k][1] if k in b.m else self.base_get(b.base, kk)
                v = factor(c, x, y) or ite(c, x, y)
                if v is ABSENT and r.base is None: continue
                m[k] = (kk, v)
            r.m = m
        if a.items is not None:
            x, y = a.items, b.items
            n = 0
            while n < len(x) and n < len(y) and (x[n] is y[n] or (same(x[n][0], y[n][0]) and same(x[n][1], y[n][1]))): n += 1
            pre = list(x[:n]); x = x[n:]; y = y[n:]
            if a.kind == "bytearray" and len(x) == 1 and len(y) == 1:
                r.items = pre + [(True, factor(c, x[0][1], y[0][1]) or ite(c, x[0][1], y[0][1]))]
                return r
            suf = []
            while x and y and same(x[-1][1], y[-1][1]):
                suf.append((ite(c, x[-1][0], y[-1][0]), x[-1][1])); x = x[:-1]; y = y[:-1]
            if len(x) == len(y) and all(same(p[0], True) and same(q[0], True) for p, q in zip(x, y)):
                mid = [(True, ite(c, p[1], q[1])) for p, q in zip(x, y)]     # element-wise update
            else:
                nc = not_(c)
                mid = [(and_(c, g), v) for g, v in x] + [(and_(nc, g), v) for g, v in y]
            r.items = pre + [p for p in mid if p[0] is not False] + suf[::-1]
        return r

    def ok(self, c):
        """Is condition c possible in the current state?"""
        pc = and_(self.st.pc, c)
        return pc is not False and feasible(pc)

    def cases(self, v):
        """Possible (condition, leaf) pairs of a gated value in the current state."""
        if self.st.pc is False: raise Dead()
        if not isinstance(v, G): return [(True, v)]
        v = constrain(v, self.st.pc)
        if not isinstance(v, G): return [(True, v)]
        ls = leaves(v)
        out = [(c, x) for c, x in ls if self.ok(c)]
        if len(out) == 1: return [(True, out[0][1])]
        if not out: raise Dead()
        return out

    def branch(self, parts):
        """Run disjoint alternatives [(condition, thunk)] and join them."""
        base = self.st
        if len(parts) == 1 and parts[0][0] is True: return parts[0][1]()
        outs = []
        for c, th in parts:
            pc = and_(base.pc, c)
            if pc is False or not feasible(pc): continue
            self.st = base.fork(pc)
            try: v = th()
            except Dead: continue
            if self.st.pc is not False: outs.append((self.st, v))
        if not outs:
            self.st = base.fork(False)
            raise Dead()
        self.st, v = self.merge(outs)
        return v

    def each(self, v, f):
        """Apply an effectful leaf function to every possible leaf."""
        cs = self.cases(unfold(v))
        if len(cs) == 1: return f(cs[0][1])
        return self.branch([(c, (lambda x=x: f(x))) for c, x in cs])

    def pure(self, f, *vs, keep=False):
        """Apply a pure leaf function over the product of possible leaves; Exc results become raise exits."""
        lists = [self.cases(v if keep else unfold(v)) for v in vs]
        r = None
        def go(i, c, acc):
            nonlocal r
            if i == len(lists):
                y = f(*acc)
                r = [y] if r is None else [ite(c, y, r[0])]
                return
            for ci, x in lists[i]:
                cc = and_(c, ci)
                if cc is False or (len(lists[i]) > 1 and i > 0 and not self.ok(cc)): continue
                go(i + 1, cc, acc + [x])
        go(0, True, [])
        if r is None: raise Dead()
        return self.settle(r[0])

    def settle(self, v):
        """Turn Exc leaves into raise exits."""
        if isinstance(v, Exc):
            self.raise_if(True, v)
        if not isinstance(v, G): return v
        ls = leaves(v)
        for c, x in ls:
            if isinstance(x, Exc): self.raise_if(c, x)
        if any(isinstance(x, Exc) for _, x in ls):
            v = gmap(lambda x: ABSENT if isinstance(x, Exc) else x, v)
            rest = False
            for c, x in ls:
                if isinstance(x, Exc): rest = or_(rest, c)
            v = constrain(v, not_(rest))
        return v

    def raise_if(self, c, exc):
        pc = and_(self.st.pc, c)
        if pc is False or not feasible(pc):
            if c is True: raise Dead()
            return
        self.exits.append(("raise", exc, self.st.fork(pc)))
        pc = and_(self.st.pc, not_(c))
        self.st.pc = pc
        if pc is False or not feasible(pc):
            self.st.pc = False
            raise Dead()

    def truth(self, v):
        def f(x):
            if isinstance(x, Ref):
                r = self.rec(x)
                if r.items is not None and r.kind != "bytearray":
                    c = False
                    for g, _ in r.items: c = or_(c, g)
                    return c
                if r.kind == "bytearray": return truth_leaf_g(r.items[0][1])
                if r.kind == "dict":
                    c = False
                    for k, x2 in r.m.values(): c = or_(c, present(x2))
                    if r.base is not None: c = or_(c, batom("truthy", r.base))
                    return c
                return True
            return truth_leaf(x)
        r = self.pure(f, v)
        return gmap(lambda x: bool(x), r)

    # ---------------------------------------------------------------- effects
    def effect(self, kind, *args):
        r = self.own(self.fx)
        r.items.append((True, (kind,) + tuple(self.freeze(a) for a in args)))

    def freeze(self, v, depth=0):
        def f(x):
            if isinstance(x, Ref):
                r = self.st.heap.get(x.id)
                if r is None or depth > 8 or r.kind in ("mod", "cls", "env"): return x
                if r.kind == "bytearray": return r.items[0][1]
                if r.kind == "obj": return x
                if r.m is not None:
                    ks = sorted(r.m.values(), key=lambda p: (0, repr(p[0])) if not isinstance(p[0], T) else (1, "%09d" % p[0].id))
                    return ("dict", r.base) + tuple((k, self.freeze(v2, depth + 1)) for k, v2 in ks if v2 is not ABSENT)
                return (r.kind,) + tuple((g, self.freeze(v2, depth + 1)) for g, v2 in r.items)
            if isinstance(x, tuple): return tuple(self.freeze(y, depth + 1) for y in x)
            return x
        return gmap(f, v)

    # ---------------------------------------------------------------- modules
    def load(self, name):
        """Abstractly execute a repository module; returns its Ref."""
        if name in self.modules: return self.modules[name]
        for root in [self.root] + self.extra_roots:
            path = os.path.join(root, *name.split("."))
            path = os.path.join(path, "__init__.py") if os.path.isdir(path) else path + ".py"
            if os.path.isfile(path): break
        else: return None
        src = open(path, encoding="utf-8", errors="replace").read()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
        except SyntaxError as e: raise Broken("cannot parse %s: %s" % (path, e))
        ref = self.alloc(Rec("mod", m={}, name=name))
        self.modules[name] = ref
        self.own(ref).m.update({"__name__": ("__name__", name), "__file__": ("__file__", sym("__file__:" + name, "str")), "__doc__": ("__doc__", None)})
        saved, self.exits = self.exits, []
        self.frames.append(Frame([ref.id], None, name))
        try:
            self.block([s for s in tree.body if not self.skip_top(s)])
        except Dead: pass
        self.frames.pop()
        ex = self.exits
        self.exits = saved
        for k, v, st in ex:
            raise Broken("module %s may fail to load: %r" % (name, v))
        # submodule attribute of the package
        if "." in name:
            p = self.load(name.rsplit(".", 1)[0])
            if p is not None: self.own(p).m[name.rsplit(".", 1)[1]] = (name.rsplit(".", 1)[1], ref)
        return ref

    def skip_top(self, s):
        if isinstance(s, ast.ClassDef):
            for b in s.bases:
                if "TestCase" in ast.dump(b): return True
        if isinstance(s, ast.If):
            t = ast.dump(s.test)
            if "__main__" in t or "version_info" in t: return True
        if isinstance(s, (ast.Import, ast.ImportFrom)) and any("unittest" in (a.name or "") for a in s.names): return True
        if isinstance(s, ast.ImportFrom) and "unittest" in (s.module or ""): return True
        return False

    def attr_of_module(self, name, attr):
        ref = self.load(name)
        if ref is None: return Ext(name + "." + attr)
        m = self.rec(ref).m
        if attr in m: return m[attr][1]
        sub = self.load(name + "." + attr)
        return sub if sub is not None else ABSENT

    def get(self, mod, attr):
        v = self.attr_of_module(mod, attr)
        if v is ABSENT: raise Broken("%s.%s not found" % (mod, attr))
        return v

    # ---------------------------------------------------------------- names
    def load_name(self, name):
        fr = self.frames[-1]
        fn = fr.fn
        scopes = fr.scopes
        if fn is not None and name in fn.globals_: scopes = scopes[-1:]
        for d, sid in enumerate(scopes):
            m = self.st.heap[sid].m
            if name in m:
                v = m[name][1]
                if not isinstance(v, G) and v is not ABSENT: return v
                v = constrain(v, self.st.pc)
                if isinstance(v, G) or v is ABSENT:
                    ab = gmap(lambda x: x is ABSENT, v)
                    if ab is not False and self.ok(ab):
                        if d == 0 and fn is not None and name in fn.locals_:
                            self.raise_if(ab, Exc("UnboundLocalError", name))
                        elif sid == scopes[-1] or ab is True:
                            b = self.builtin(name)
                            if b is None: self.raise_if(ab, Exc("NameError", name))
                            else: v = ite(ab, b, v)
                        else:
                            self.raise_if(ab, Exc("NameError", name))
                        v = constrain(v, self.st.pc)
                    if v is ABSENT: continue
                return v
            if d == 0 and fn is not None and name in fn.locals_ and name not in fn.nonlocals:
                self.raise_if(True, Exc("UnboundLocalError", name))
        b = self.builtin(name)
        if b is None: self.raise_if(True, Exc("NameError", name))
        return b

    def builtin(self, name):
        if name == "__debug__": return True
        if hasattr(builtins, name): return Ext(name)
        return None

    def store_name(self, name, v):
        fr = self.frames[-1]
        fn = fr.fn
        sid = fr.scopes[0]
        if fn is not None:
            if name in fn.globals_: sid = fr.scopes[-1]
            elif name in fn.nonlocals:
                for s in fr.scopes[1:]:
                    if name in self.st.heap[s].m: sid = s; break
        r = self.st.heap[sid].copy()
        self.st.heap[sid] = r
        r.m[name] = (name, v)

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            if self.st.pc is False: raise Dead()
            self.stats["statements"].add((self.frames[-1].mod, s.lineno))
            try: self.stmt(s)
            except Unknown as e:
                raise Broken("%s:%d: %s" % (self.frames[-1].mod, s.lineno, e))

    def run_block(self, stmts):
        """Execute; returns False when the end is unreachable."""
        try:
            self.block(stmts)
            return self.st.pc is not False
        except Dead:
            return False

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unknown("statement " + type(s).__name__)
        m(s)

    def s_Pass(self, s): pass
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value)
    def s_Global(self, s): pass
    def s_Nonlocal(self, s): pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = OPS[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            v = self.augop(op, old, self.ev(s.value))
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            v = self.augop(op, old, self.ev(s.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev_slice(t.slice)
            old = self.getitem(o, k)
            v = self.augop(op, old, self.ev(s.value))
            self.setitem(o, k, v)
        else: raise Unknown("augmented assignment")

    def augop(self, op, old, v):
        def f(o):
            if isinstance(o, Ref):
                k = self.rec(o).kind
                if op == "+" and k in ("list", "deque", "bytearray"):
                    self.call_meth(o, "extend", [v], {})
                    return o
                if op == "|" and k == "dict":
                    self.call_meth(o, "update", [v], {})
                    return o
            return self.binop(op, o, v)
        return self.each(old, f) if self.hasref(old) else self.binop(op, old, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name): self.store_name(t.id, ABSENT)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev_slice(t.slice)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value), t.attr, ABSENT)
            else: raise Unknown("del")

    def assign(self, t, v):
        if isinstance(t, ast.Name): self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value), self.ev_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                seq = self.tolist(v)
                i = star[0]; after = len(t.elts) - i - 1
                if any(g is not True for g, _ in seq): raise Unknown("starred unpack of a sequence of unknown length")
                vals = [x for _, x in seq]
                if len(vals) < len(t.elts) - 1: self.raise_if(True, Exc("ValueError"))
                parts = vals[:i] + [None] + vals[len(vals) - after:]
                for j, e in enumerate(t.elts):
                    if j == i: self.assign(e.value, self.newlist(vals[i:len(vals) - after]))
                    else: self.assign(e, parts[j])
                return
            parts = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, parts): self.assign(e, x)
        else: raise Unknown("assignment target")

    def unpack(self, v, n):
        cols = [None] * n
        def f(x):
            if isinstance(x, tuple):
                if len(x) != n: return Exc("ValueError")
                return x
            if isinstance(x, Ref):
                r = self.rec(x)
                if r.kind in ("list", "deque", "iter"):
                    if all(same(g, True) for g, _ in r.items):
                        return tuple(v2 for _, v2 in r.items) if len(r.items) == n else Exc("ValueError")
                    seq = self.tolist(x)
                    cnt = 0
                    for g, _ in seq: cnt = ops.gadd(cnt, ite(g, 1, 0))
                    okc = gmap(lambda k: k == n, cnt)
                    return ite(okc, tuple(self.nth(seq, i) for i in range(n)), Exc("ValueError"))
                if r.kind == "dict" and r.base is None: return tuple(k for k, _ in r.m.values()) if len(r.m) == n else Exc("ValueError")
            if isinstance(x, T):
                if x.ty == "any":
                    okc = and_(kind_is(x, "list", "str", "dict"), gcompare("==", length(x), n))
                    return ite(okc, tuple(mk("item", x, i, ty="any") for i in range(n)), Exc("ValueError"))
                if x.ty in ("list[str]", "list[any]"):
                    return ite(gcompare("==", length(x), n), tuple(elem(x, i) for i in range(n)), Exc("ValueError"))
                if x.ty in ("unk", "ext"): return tuple(mk("item", x, i, ty="unk") for i in range(n))
            if isinstance(x, (str, bytes)): return tuple(x) if len(x) == n else Exc("ValueError")
            if isinstance(x, T) and x.ty in ("bytes", "str"):
                L = length(x)
                item = lambda i: byte_at(x, i) if x.ty == "bytes" else mk("item", x, i, ty="str")
                return ite(gcompare("==", L, n) if not isinstance(L, int) else L == n, tuple(item(i) for i in range(n)), Exc("ValueError"))
            if isinstance(x, T) and x.op == "range":
                return ite(gcompare("==", arithnum("-", x.args[1], x.args[0]), n), tuple(arithnum("+", x.args[0], i) for i in range(n)), Exc("ValueError"))
            if isinstance(x, Ref): raise Unknown("unpack of " + self.rec(x).kind)
            return wrong(x)
        w = self.pure(f, v)
        out = []
        for i in range(n):
            out.append(gmap1(lambda x: x if x is ABSENT else x[i], w))
        return out

    def nth(self, seq, i):
        """i-th present element of a guarded sequence (ABSENT where there is none)."""
        r = ABSENT
        cnt = 0
        for g, v in seq:
            here = and_(g, gmap(lambda k: k == i, cnt))
            r = ite(here, v, r) if here is not False else r
            cnt = ops.gadd(cnt, ite(g, 1, 0))
        return r

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.stats["branches"] += 1
        self.two(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def two(self, c, a, b):
        if c is True: return a()
        if c is False: return b()
        return self.branch([(c, a), (not_(c), b)])

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.exits.append(("return", v, self.st.fork(self.st.pc)))
        self.st.pc = False
        raise Dead()

    def s_Break(self, s):
        self.exits.append(("break", None, self.st.fork(self.st.pc)))
        self.st.pc = False
        raise Dead()

    def s_Continue(self, s):
        self.exits.append(("continue", None, self.st.fork(self.st.pc)))
        self.st.pc = False
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            v = self.handling[-1] if getattr(self, "handling", None) else Exc("RuntimeError")
        else: v = self.ev(s.exc)
        if s.cause is not None: self.ev(s.cause)
        def f(x):
            if isinstance(x, Exc): self.raise_if(True, x)
            if isinstance(x, Ext):
                self.raise_if(True, Exc(x.name))
            if isinstance(x, Ref):
                r = self.rec(x)
                if r.kind == "cls": self.raise_if(True, Exc(self.exc_name(x)))
                if r.kind == "obj" and r.cls is not None: self.raise_if(True, Exc(self.exc_name(r.cls)))
            self.raise_if(True, Exc("*"))
        self.each(v, f)

    def exc_name(self, clsref):
        r = self.rec(clsref)
        for b in r.base or ():
            if isinstance(b, Ext): self.user_exc[r.name] = b.name
            elif isinstance(b, Ref): self.user_exc[r.name] = self.exc_name(b)
        return r.name

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if c is not True: self.raise_if(not_(c), Exc("AssertionError"))

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            ref = self.load(a.name)
            if ref is not None:
                if a.asname: self.store_name(a.asname, ref)
                else: self.store_name(top, self.load(top))
            else:
                self.store_name(a.asname or top, Ext(a.name if a.asname else top))

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            base = self.frames[-1].mod.split(".")
            path = os.path.join(self.root, *base)
            if not os.path.isdir(path): base = base[:-1]
            if s.level > 1: base = base[:-(s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        ref = self.load(mod)
        if ref is None and mod == "Queue":
            self.raise_if(True, Exc("ImportError"))
        for a in s.names:
            if a.name == "*":
                if ref is None: raise Unknown("import * from " + mod)
                for k, (n, v) in list(self.rec(ref).m.items()):
                    if isinstance(n, str) and not n.startswith("_"): self.store_name(n, v)
                continue
            v = self.attr_of_module(mod, a.name) if ref is not None else Ext(mod + "." + a.name)
            if v is ABSENT: raise Broken("%s has no %s" % (mod, a.name))
            self.store_name(a.asname or a.name, v)

    def makefn(self, node, name):
        f = Fn()
        f.node, f.name, f.mod = node, name, self.frames[-1].mod
        fr = self.frames[-1]
        sc = fr.scopes
        # class scopes are not visible from methods
        f.scopes = [i for i in sc if not (self.st.heap[i].kind == "cls")]
        a = node.args
        f.defaults = [self.ev(d) for d in a.defaults]
        f.kwdefaults = [self.ev(d) if d is not None else ABSENT for d in a.kw_defaults]
        f.globals_, f.nonlocals, f.locals_ = set(), set(), set()
        f.isgen, f.keep, f.kind = False, False, "plain"
        for x in (a.posonlyargs + a.args + a.kwonlyargs): f.locals_.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x: f.locals_.add(x.arg)
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    f.locals_.add(c.name); f.keep = True; continue
                if isinstance(c, ast.Lambda): f.keep = True; continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for w in ast.walk(c):
                        if isinstance(w, ast.NamedExpr): f.locals_.add(w.target.id)
                    continue
                if isinstance(c, ast.Global): f.globals_.update(c.names)
                elif isinstance(c, ast.Nonlocal): f.nonlocals.update(c.names)
                elif isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): f.locals_.add(c.id)
                elif isinstance(c, ast.ExceptHandler) and c.name: f.locals_.add(c.name)
                elif isinstance(c, (ast.Import, ast.ImportFrom)):
                    for al in c.names: f.locals_.add((al.asname or al.name).split(".")[0])
                elif isinstance(c, (ast.Yield, ast.YieldFrom)): f.isgen = True
                walk(c)
        for b in body:
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)): f.locals_.add(b.name); f.keep = True
            elif isinstance(b, ast.Global): f.globals_.update(b.names)
            elif isinstance(b, ast.Nonlocal): f.nonlocals.update(b.names)
            else: walk(b)
            if isinstance(b, (ast.Import, ast.ImportFrom)):
                for al in b.names: f.locals_.add((al.asname or al.name).split(".")[0])
        f.locals_ -= f.globals_ | f.nonlocals
        return f

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        cls = self.st.heap[fr.scopes[0]]
        name = s.name if not (cls.kind == "cls") else cls.name + "." + s.name
        f = self.makefn(s, name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if isinstance(dv, Ext) and dv.name in ("property", "functools.cached_property"): f.kind = "property"
            elif isinstance(dv, Ext) and dv.name == "staticmethod": f.kind = "static"
            elif isinstance(dv, Ext) and dv.name == "classmethod": f.kind = "class"
            elif isinstance(dv, Ext) and dv.name.startswith(("functools.", "contextlib.", "typing.")): pass
            elif isinstance(dv, Meth) and dv.fn == "setter": return
            else: v = self.call(dv, [v], {})
        self.store_name(s.name, v)

    def s_ClassDef(self, s):
        bases = tuple(self.ev(b) for b in s.bases)
        ref = self.alloc(Rec("cls", m={}, name=s.name, base=bases))
        fr = self.frames[-1]
        self.frames.append(Frame([ref.id] + fr.scopes, fr.fn, fr.mod))
        f0 = self.frames[-1].fn
        self.frames[-1].fn = None
        try: self.block(s.body)
        finally:
            self.frames.pop()
        if any(isinstance(b, Ext) and b.name in ("enum.Enum", "enum.IntEnum") for b in bases): self.make_enum(ref)
        self.store_name(s.name, ref)

    def make_enum(self, ref):
        r = self.own(ref)
        byval = {}
        for k, (n, v) in list(r.m.items()):
            if isinstance(v, Fn) or str(n).startswith("__"): continue
            if isinstance(v, G): raise Unknown("gated enum value")
            if key(v) in byval: r.m[k] = (n, byval[key(v)]); continue
            o = self.alloc(Rec("obj", m={"value": ("value", v), "name": ("name", n), "_value_": ("_value_", v)}, cls=ref, name=n))
            byval[key(v)] = o
            r.m[k] = (n, o)
        r.items = [(v, o) for v, o in byval.items()]

    # ---------------------------------------------------------------- loops
    def loop_exits(self, base_exits, brk):
        """Separate break/continue exits collected since `self.exits` was replaced; others go to base_exits."""
        cont = []
        for k, v, st in self.exits:
            if k == "break": brk.append((st, None))
            elif k == "continue": cont.append((st, None))
            else: base_exits.append((k, v, st))
        self.exits = []
        return cont

    def s_While(self, s):
        saved, self.exits = self.exits, []
        brk, done = [], []
        k = self.loop_k or self.unroll
        alive = True
        n = 0
        try:
            while True:
                try: c = self.truth(self.ev(s.test))
                except Dead:
                    self.loop_exits(saved, brk); alive = False; break
                self.loop_exits(saved, brk)
                base = self.st
                pcf = and_(base.pc, not_(c))
                if pcf is not False and feasible(pcf): done.append((base.fork(pcf), None))
                pct = and_(base.pc, c)
                if pct is False or not feasible(pct): alive = False; break
                if n >= k and not (c is True and base.pc is True and n < 4096 and not self.infinite(s)):
                    self.limits.append(("%s:%d" % (self.frames[-1].mod, s.lineno), base.fork(pct)))
                    break
                n += 1
                self.st = base.fork(pct)
                ok = self.run_block(s.body)
                cont = self.loop_exits(saved, brk)
                nxt = ([(self.st, None)] if ok else []) + cont
                m = self.merge(nxt)
                if m is None: alive = False; break
                self.st = m[0]
        finally:
            self.exits = saved
        m = self.merge(done)
        outs = list(brk)
        if m is not None:
            self.st = m[0]
            if s.orelse:
                if self.run_block(s.orelse): outs.append((self.st, None))
            else: outs.append(m)
        m = self.merge(outs)
        if m is None:
            self.st = self.st.fork(False)
            raise Dead()
        self.st = m[0]

    def infinite(self, s):
        return isinstance(s.test, ast.Constant)

    def s_For(self, s):
        it = self.ev(s.iter)
        fn = None
        if isinstance(it, Ref) and self.rec(it).kind == "calliter": fn, stop = self.rec(it).items[0][1], self.rec(it).items[1][1]
        elif isinstance(it, Ext) and it.name == "sys.stdin": fn, stop = self.getattr(it, "readline"), ""
        if fn is not None:
            if s.orelse: raise Unknown("else of a loop over calls")
            # while True: v = fn(); if v == stop: break; target = v; body
            n = "$%d" % s.lineno
            self.store_name(n + "f", fn)
            self.store_name(n + "s", stop)
            w = ast.parse("while True:\n v=f()\n if v==s: break\n t=v").body[0]
            for q in ast.walk(w):
                if isinstance(q, ast.Name): q.id = n + q.id
                if hasattr(q, "lineno"): q.lineno = s.lineno
            w.body[2].targets = [s.target]
            w.body += s.body
            return self.s_While(w)
        seq, more = self.iterate(it)
        saved, self.exits = self.exits, []
        brk = []
        alive = True
        try:
            for g, v in seq:
                base = self.st
                pc = and_(base.pc, g)
                if pc is False or not feasible(pc): continue
                skip = and_(base.pc, not_(g))
                outs = []
                if skip is not False and feasible(skip): outs.append((base.fork(skip), None))
                self.st = base.fork(pc)
                try:
                    self.assign(s.target, v)
                    ok = self.run_block(s.body)
                except Dead: ok = False
                cont = self.loop_exits(saved, brk)
                m = self.merge(([(self.st, None)] if ok else []) + cont + outs)
                if m is None: alive = False; break
                self.st = m[0]
            if alive and more is not False:
                pc = and_(self.st.pc, more)
                if pc is not False and feasible(pc):
                    self.limits.append(("%s:%d" % (self.frames[-1].mod, s.lineno), self.st.fork(pc)))
                    self.st.pc = and_(self.st.pc, not_(more))
                    if self.st.pc is False or not feasible(self.st.pc): alive = False
        finally:
            self.exits = saved
        outs = list(brk)
        if alive:
            if s.orelse: alive = self.run_block(s.orelse)
            if alive: outs.append((self.st, None))
        m = self.merge(outs)
        if m is None:
            self.st = self.st.fork(False)
            raise Dead()
        self.st = m[0]

    def iterate(self, v):
        """([(guard, element)], condition under which more elements remain)."""
        cs = self.cases(v)
        if len(cs) == 1: return self.iter_leaf(cs[0][1])
        out, more = [], False
        for c, x in cs:
            save = self.st
            self.st = save.fork(and_(save.pc, c))
            n0 = self.st.pc
            try: seq, mo = self.iter_leaf(x)
            except Dead: seq, mo = [], False
            heap, pc = self.st.heap, self.st.pc
            self.st = save
            self.st.heap = {**heap, **save.heap} if heap is not save.heap else save.heap
            out += [(and_(c, g), e) for g, e in seq]
            more = or_(more, and_(c, mo))
        # exceptions inside the forks are already recorded; drop their paths
        bad = False
        for k, e, st in self.exits:
            pass
        return out, more

    def iter_leaf(self, x):
        K = self.loop_k or self.unroll
        if isinstance(x, (tuple, str)): return [(True, y) for y in x], False
        if isinstance(x, bytes): return [(True, y) for y in x], False
        if isinstance(x, Ref):
            r = self.rec(x)
            if r.kind == "bytearray":
                return self.iter_leaf(r.items[0][1]) if not isinstance(r.items[0][1], G) else self.iterate(r.items[0][1])
            if r.items is not None and r.kind != "cls": return list(r.items), r.base if r.base is not None else False
            if r.kind == "cls" and r.items is not None: return [(True, o) for _, o in r.items], False
            if r.kind == "dict":
                out = [(present(v), k) for k, v in r.m.values() if v is not ABSENT]
                if r.base is not None:
                    L = mk("len", r.base, ty="int", rng=(0, math.inf))
                    out += [(ncmp(">", L, i), mk("elem", r.base, i, ty="str")) for i in range(K)]
                    return out, ncmp(">", L, K)
                return out, False
            if r.kind == "obj":
                it = self.getattr(x, "__iter__", soft=True)
                if it is not ABSENT: return self.iterate(self.call(it, [], {}))
        if isinstance(x, T):
            if x.op == "range":
                a, b = x.args
                n = arithnum("-", b, a)
                lo, hi = rng_of(n)
                if hi < math.inf and hi <= 64: K = int(hi)
                return [(ncmp(">", n, i), arithnum("+", a, i)) for i in range(K)], ncmp(">", n, K)
            if x.ty in ("bytes", "str"):
                L = length(x)
                if isinstance(L, int): return [(True, byte_at(x, i) if x.ty == "bytes" else mk("item", x, i, ty="str")) for i in range(L)], False
                return [(gcompare(">", L, i), byte_at(x, i) if x.ty == "bytes" else mk("item", x, i, ty="str")) for i in range(K)], gcompare(">", L, K)
            if x.ty in ("list[str]", "list[any]"):
                L = length(x)
                return [(gcompare(">", L, i), elem(x, i)) for i in range(K)], gcompare(">", L, K)
            if x.ty == "any":
                self.raise_if(not_(kind_is(x, "list", "dict", "str")), Exc("TypeError"))
                L = mk("len", x, ty="int", rng=(0, math.inf))
                return [(ncmp(">", L, i), mk("elem", x, i, ty="any")) for i in range(K)], ncmp(">", L, K)
            if x.ty in ("unk", "ext"):
                L = mk("len", x, ty="int", rng=(0, math.inf))
                return [(ncmp(">", L, i), mk("elem", x, i, ty="unk")) for i in range(K)], ncmp(">", L, K)
        if isinstance(x, Ref): raise Unknown("iteration over " + self.rec(x).kind)
        self.raise_if(True, wrong(x))

    def tolist(self, v):
        seq, more = self.iterate(v)
        if more is not False and self.ok(more):
            self.limits.append(("%s: sequence longer than the analysed bound" % self.frames[-1].mod, self.st.fork(and_(self.st.pc, more))))
            self.st.pc = and_(self.st.pc, not_(more))
        return seq

    # ---------------------------------------------------------------- exceptions
    def matches(self, exc, spec):
        """Condition under which exception leaf `exc` matches handler type `spec`."""
        if spec is None: return True
        if isinstance(spec, tuple):
            r = False
            for x in spec: r = or_(r, self.matches(exc, x))
            return r
        name = spec.name if isinstance(spec, Ext) else self.rec(spec).name if isinstance(spec, Ref) else "?"
        if name.startswith("builtins."): name = name[9:]
        e = exc.name
        if name in ("Exception", "BaseException"):
            c = exc_class(e)
            if e in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"): return name == "BaseException"
            return True
        if e == name: return True
        if isinstance(spec, Ref):
            while e in self.user_exc:
                e = self.user_exc[e]
                if e == name: return True
            return False
        while e in self.user_exc: e = self.user_exc[e]
        h = exc_class(name)
        c = exc_class(e)
        if e.startswith("*"):
            if h is None: return batom("isexc", exc.name + str(exc.arg), name)
            if e == "*ext" or e == "*": return batom("isexc", e + str(exc.arg), name)
        if c is not None and h is not None:
            if name in EXTRA_EXC and name not in ("socket.error",): return False
            return issubclass(c, h)
        if c is None and e.rsplit(".", 1)[-1] == name.rsplit(".", 1)[-1]: return True
        return False

    def s_Try(self, s):
        saved, self.exits = self.exits, []
        base = self.st.fork(self.st.pc)
        ok = self.run_block(s.body)
        body_exits = self.exits
        self.exits = []
        outs = []
        if ok:
            if s.orelse:
                if self.run_block(s.orelse): outs.append((self.st, None))
            else: outs.append((self.st, None))
        rest = list(self.exits)       # exits of else-block are not handled here
        self.exits = []
        raises = [e for e in body_exits if e[0] == "raise"]
        rest += [e for e in body_exits if e[0] != "raise"]
        for h in s.handlers:
            if not raises: break
            spec = None
            if h.type is not None:
                st0 = self.st
                self.st = base.fork(base.pc)
                spec = self.ev(h.type)
                self.st = st0
            taken, left = [], []
            for k, v, st in raises:
                c = self.matches(v, spec)
                p1 = and_(st.pc, c)
                p0 = and_(st.pc, not_(c))
                if p1 is not False and feasible(p1): taken.append((st.fork(p1), v))
                if p0 is not False and feasible(p0): left.append((k, v, st.fork(p0)))
            raises = left
            m = self.merge(taken)
            if m is None: continue
            self.st = m[0]
            ev = m[1]
            if h.name: self.store_name(h.name, ev)
            if not hasattr(self, "handling"): self.handling = []
            self.handling.append(ev)
            ok = self.run_block(h.body)
            self.handling.pop()
            if ok:
                if h.name: self.store_name(h.name, ABSENT)
                outs.append((self.st, None))
            rest += self.exits
            self.exits = []
        rest += raises
        m = self.merge(outs)
        if s.finalbody:
            newrest = []
            groups = {}
            for k, v, st in rest: groups.setdefault((k, v.name if isinstance(v, Exc) else None), []).append((st, v))
            for (k, _), lst in groups.items():
                mm = self.merge(lst)
                if mm is None: continue
                self.st = mm[0]
                ok = self.run_block(s.finalbody)
                newrest += self.exits
                self.exits = []
                if ok: newrest.append((k, mm[1], self.st))
            rest = newrest
            if m is not None:
                self.st = m[0]
                ok = self.run_block(s.finalbody)
                rest += self.exits
                m = (self.st, None) if ok else None
        self.exits = saved + rest
        if m is None:
            self.st = self.st.fork(False)
            raise Dead()
        self.st = m[0]

    s_TryStar = None

    def s_With(self, s):
        def run(i):
            if i == len(s.items): self.block(s.body); return
            it = s.items[i]
            cm = self.ev(it.context_expr)
            v = self.enter(cm)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
            saved, self.exits = self.exits, []
            ok = True
            try: run(i + 1)
            except Dead: ok = False
            ok = ok and self.st.pc is not False
            ex = self.exits
            self.exits = []
            outs = []
            if ok:
                try:
                    self.leave(cm, False)
                    outs.append((self.st, None))
                except Dead: pass
            new = self.exits
            self.exits = []
            groups = {}
            for k, v, st in ex: groups.setdefault((k, v.name if isinstance(v, Exc) else None), []).append((st, v))
            for (k, _), lst in groups.items():
                mm = self.merge(lst)
                if mm is None: continue
                self.st = mm[0]
                try:
                    sup = self.leave(cm, k == "raise")
                    if sup is True and k == "raise": outs.append((self.st, None))
                    else: new.append((k, mm[1], self.st))
                except Dead: pass
                new += self.exits
                self.exits = []
            self.exits = saved + new
            m = self.merge(outs)
            if m is None:
                self.st = self.st.fork(False)
                raise Dead()
            self.st = m[0]
        run(0)

    def enter(self, cm):
        def f(x):
            if isinstance(x, Ref):
                m = self.getattr(x, "__enter__", soft=True)
                if m is not ABSENT: return self.call(m, [], {})
            return self.M.enter(self, x)
        return self.each(cm, f)

    def leave(self, cm, exc):
        def f(x):
            if isinstance(x, Ref):
                m = self.getattr(x, "__exit__", soft=True)
                if m is not ABSENT:
                    return self.call(m, [None, None, None] if not exc else [mk("sym", "exc_type", ty="obj"), mk("sym", "exc_val", ty="obj"), mk("sym", "exc_tb", ty="obj")], {})
            return self.M.leave(self, x, exc)
        return self.each(cm, f)

    def s_Match(self, s):
        subj = self.ev(s.subject)
        def go(i):
            if i == len(s.cases): return
            c = s.cases[i]
            p = self.pattern(c.pattern, subj)
            def yes():
                self.bind(c.pattern, subj)
                if c.guard is not None:
                    g = self.truth(self.ev(c.guard))
                    self.two(g, lambda: self.block(c.body), lambda: go(i + 1))
                else: self.block(c.body)
            self.two(p, yes, lambda: go(i + 1))
        go(0)

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue): return self.truth(self.compare2("==", v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton): return self.truth(self.compare2("is", v, p.value))
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns: r = or_(r, self.pattern(q, v))
            return r
        if isinstance(p, ast.MatchAs): return True if p.pattern is None else self.pattern(p.pattern, v)
        raise Unknown("pattern " + type(p).__name__)

    def bind(self, p, v):
        if isinstance(p, ast.MatchAs) and p.name: self.store_name(p.name, v)

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        if self.st.pc is False: raise Dead()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None: raise Unknown("expression " + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return n.value if n.value is not Ellipsis else None

    def e_Name(self, n): return self.load_name(n.id)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.store_name(n.target.id, v)
        return v

    def e_Tuple(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            seq = self.elts(n.elts)
            if any(g is not True for g, _ in seq): raise Unknown("tuple of unknown length")
            return tuple(v for _, v in seq)
        return tuple(self.ev(e) for e in n.elts)

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred): out += self.tolist(self.ev(e.value))
            else: out.append((True, self.ev(e)))
        return out

    def e_List(self, n): return self.alloc(Rec("list", items=self.elts(n.elts)))
    def e_Set(self, n): return self.alloc(Rec("set", items=self.elts(n.elts)))

    def e_Dict(self, n):
        r = self.newdict()
        for k, v in zip(n.keys, n.values):
            if k is None: self.call_meth(r, "update", [self.ev(v)], {})
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v))
        return r

    def e_BinOp(self, n):
        a = self.ev(n.left)
        return self.binop(OPS[type(n.op)], a, self.ev(n.right))

    def binop(self, op, a, b):
        def f(x, y):
            if isinstance(x, Ref) or isinstance(y, Ref): return None
            return 1
        if self.hasref(a) or self.hasref(b):
            return self.each(a, lambda x: self.each(b, lambda y: self.binop_ref(op, x, y)))
        if op == "+":
            if isinstance(a, G): a = choice(a, 8)
            if isinstance(b, G): b = choice(b, 8)
        return self.pure(lambda x, y: arith(op, x, y), a, b, keep=op == "+")

    def hasref(self, v): return any(isinstance(x, Ref) for _, x in leaves(v))

    def binop_ref(self, op, x, y):
        kx = self.rec(x).kind if isinstance(x, Ref) else None
        ky = self.rec(y).kind if isinstance(y, Ref) else None
        if op == "+" and kx == "list" and ky == "list":
            return self.alloc(Rec("list", items=list(self.rec(x).items) + list(self.rec(y).items)))
        if op == "+" and "bytearray" in (kx, ky):
            a = self.rec(x).items[0][1] if kx else x
            b = self.rec(y).items[0][1] if ky else y
            v = self.pure(lambda p, q: arith("+", p, q), a, b)
            return self.alloc(Rec("bytearray", items=[(True, v)])) if kx == "bytearray" else v
        if op == "*" and kx == "list":
            if isinstance(y, int): return self.alloc(Rec("list", items=list(self.rec(x).items) * max(y, 0)))
            if isinstance(y, T): return self.alloc(Rec("list", items=[(True, mk("repeated", y, ty="unk"))]))
        if op == "*" and ky == "list": return self.binop_ref(op, y, x)
        if op == "%" and isinstance(x, str): return self.pure(lambda p: pctfmt(p, self.freeze(y)), x)
        if op == "|" and kx == "dict" and ky == "dict":
            r = self.call_meth(x, "copy", [], {})
            self.call_meth(r, "update", [y], {})
            return r
        for r, o, meth in ((x, y, DUNDER.get(op)), ):
            if isinstance(r, Ref) and meth:
                m = self.getattr(r, "__%s__" % meth, soft=True)
                if m is not ABSENT: return self.call(m, [o], {})
        if any(isinstance(r, Ref) and self.rec(r).kind not in ("list", "dict") for r in (x, y)): raise Unknown("operator %s on an object" % op)
        self.raise_if(True, wrong(x, y))

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not): return not_(self.truth(v))
        if isinstance(n.op, ast.USub): return self.pure(neg, v)
        if isinstance(n.op, ast.UAdd): return v
        return self.pure(lambda x: (~x if not isinstance(x, T) else arithnum("-", arithnum("*", x, -1), 1)), v)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        def go(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1: return v
            c = self.truth(v)
            if isand: return self.two(c, lambda: go(i + 1), lambda: self.falsy(v, c))
            return self.two(c, lambda: constrain(v, self.st.pc), lambda: go(i + 1))
        return go(0)

    def falsy(self, v, c): return constrain(v, self.st.pc)

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        return self.two(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def e_Compare(self, n):
        left = self.ev(n.left)
        def go(i, left):
            right = self.ev(n.comparators[i])
            r = self.compare2(CMP[type(n.ops[i])], left, right)
            if i == len(n.ops) - 1: return r
            c = self.truth(r)
            return self.two(c, lambda: go(i + 1, right), lambda: False)
        return go(0, left)

    def compare2(self, op, a, b):
        if op in ("in", "not in"):
            r = self.contains(b, a)
            return not_(r) if op == "not in" else r
        def f(x, y):
            if isinstance(x, Ref) and isinstance(y, Ref) and op in ("==", "!="):
                return (x == y) if op == "==" else (x != y) if not self.structural(x, y) else self.structeq(op, x, y)
            if isinstance(x, Ref) and self.rec(x).kind == "bytearray": x = self.rec(x).items[0][1]
            if isinstance(y, Ref) and self.rec(y).kind == "bytearray": y = self.rec(y).items[0][1]
            if isinstance(x, G) or isinstance(y, G): return gcompare(op, x, y)
            if isinstance(x, Ext) and isinstance(y, Ext) and op in ("==", "is"): return tname(x) == tname(y)
            if isinstance(x, Ext) and isinstance(y, Ext) and op in ("!=", "is not"): return tname(x) != tname(y)
            if op in ("==", "!=") and (isinstance(x, Ref) or isinstance(y, Ref)) and not (isinstance(x, T) and isinstance(y, T)):
                z = x if isinstance(y, Ref) else y
                if isinstance(z, T) and z.ty in ("any", "unk"): return batom("eqref", z, str(op))
                return op == "!="
            return compare(op, x, y)
        return self.pure(f, a, b)

    def structural(self, x, y): return self.rec(x).kind in ("list", "dict", "set", "deque", "bytearray")

    def structeq(self, op, x, y):
        r = same(self.freeze(x), self.freeze(y))
        return r if op == "==" else not r

    def contains(self, cont, k):
        def f(c, x):
            if isinstance(c, Ref):
                r = self.rec(c)
                if r.kind in ("dict", "env"): return present(self.dget(r, x))
                if r.kind == "bytearray": c = r.items[0][1]
                elif r.items is not None:
                    res = False
                    for g, v in r.items: res = or_(res, and_(g, gcompare_safe(v, x)))
                    return res
                elif r.kind == "obj":
                    return batom("in", mk("obj", c.id, ty="obj"), x)
            if isinstance(c, tuple):
                res = False
                for v in c: res = or_(res, gcompare_safe(v, x))
                return res
            if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
                try: return x in c
                except TypeError: return Exc("TypeError")
            if isinstance(c, str):
                if tyof(x) == "str": return subconst(c, x)
                if tyof(x) == "any": return ite(kind_is(x, "str"), subconst(c, strv(x)), Exc("TypeError"))
                return wrong(x)
            if isinstance(c, T):
                if c.ty == "str":
                    if tyof(x) == "str": return ops.contains(c, x)
                    if tyof(x) == "any": return ite(kind_is(x, "str"), ops.contains(c, strv(x)), Exc("TypeError"))
                    return wrong(x)
                if c.ty == "any":
                    iss = kind_is(c, "str")
                    ok = kind_is(c, "dict", "list", "str")
                    h = ite(kind_is(c, "dict"), has(c, x), ite(iss, batom("contains", strv(c), x), batom("inlist", c, x)))
                    if tyof(x) != "str": h = ite(iss, Exc("TypeError"), h)
                    return ite(ok, h, Exc("TypeError"))
                if c.ty in ("list[str]", "list[any]", "unk", "ext", "bytes"): return batom("contains", c, x)
                if c.op == "range": return and_(gcompare(">=", x, c.args[0]), gcompare("<", x, c.args[1])) if tyof(x) in ("int", "bool") else wrong(x)
            if isinstance(c, bytes) and tyof(x) in ("int", "bool"):
                res = False
                for v in c: res = or_(res, ncmp("==", x, v))
                return res
            if isinstance(c, bytes) and isinstance(x, T): raise Unknown("in bytes")
            if isinstance(c, Ref): raise Unknown("in " + self.rec(c).kind)
            return wrong(c)
        r = self.pure(f, cont, k)
        return gmap(bool, r)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        return self.getitem(o, self.ev_slice(n.slice))

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            return Slice(self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None, self.ev(s.step) if s.step else None)
        return self.ev(s)

    def e_Lambda(self, n): return self.makefn(n, "<lambda>")

    def e_JoinedStr(self, n):
        r = ""
        for p in n.values:
            if isinstance(p, ast.Constant): r = self.cat(r, p.value)
            else: r = self.cat(r, self.ev(p))
        return r

    def cat(self, a, b): return self.pure(lambda x, y: concat(x, y), a, b, keep=True)

    def e_FormattedValue(self, n):
        v = self.ev(n.value)
        spec = self.ev(n.format_spec) if n.format_spec is not None else ""
        if n.conversion in (114, 115, 97): v = self.tostr(v, n.conversion == 114)
        return self.pure(lambda x, s: fmt(x, s) if isinstance(s, str) else mk("fmt", s, x, ty="str"), self.freeze(v), spec)

    def tostr(self, v, repr_=False):
        return self.pure(lambda x: (mk("repr", x, ty="str") if repr_ and isinstance(x, T) else repr(x) if repr_ and isconst(x) else fmt(x, "")), self.freeze(v))

    def e_Starred(self, n): raise Unknown("starred expression")

    def comp(self, gens, body):
        fr = self.frames[-1]
        env = self.alloc(Rec("env", m={}))
        f = Frame([env.id] + fr.scopes, None, fr.mod)
        # names of the enclosing function keep their unbound checks through the enclosing frame
        def go(i):
            if i == len(gens): body(); return
            g = gens[i]
            if i == 0:
                self.frames.append(fr)
                try: it = self.ev(g.iter)
                finally: self.frames.pop()
            else: it = self.ev(g.iter)
            seq, more = self.iterate(it)
            for gd, v in seq:
                def one(v=v):
                    self.assign(g.target, v)
                    def cond_(j):
                        if j == len(g.ifs): go(i + 1); return
                        c = self.truth(self.ev(g.ifs[j]))
                        self.two(c, lambda: cond_(j + 1), lambda: None)
                    cond_(0)
                if gd is True: one()
                elif self.ok(gd): self.two(gd, one, lambda: None)
            if more is not False and self.ok(more):
                self.limits.append(("%s: comprehension longer than the analysed bound" % fr.mod, self.st.fork(and_(self.st.pc, more))))
                self.st.pc = and_(self.st.pc, not_(more))
        self.frames.append(f)
        try: go(0)
        finally:
            self.frames.pop()
        self.st.heap.pop(env.id, None)

    def e_ListComp(self, n):
        out = self.newlist([])
        self.comp(n.generators, lambda: self.push(out, self.ev(n.elt)))
        return out

    def e_GeneratorExp(self, n):
        out = self.newlist([])
        self.comp(n.generators, lambda: self.push(out, self.ev(n.elt)))
        self.own(out).kind = "iter"
        return out

    def e_SetComp(self, n):
        out = self.newlist([], "set")
        self.comp(n.generators, lambda: self.push(out, self.ev(n.elt)))
        return out

    def e_DictComp(self, n):
        out = self.newdict()
        def b():
            k = self.ev(n.key)
            self.setitem(out, k, self.ev(n.value))
        self.comp(n.generators, b)
        return out

    def push(self, ref, v): self.own(ref).items.append((True, v))

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        self.push(self.frames[-1].yields, v)
        return None

    def e_YieldFrom(self, n):
        for g, v in self.tolist(self.ev(n.value)):
            r = self.own(self.frames[-1].yields)
            r.items.append((g, v))
        return None

    def e_Call(self, n):
        f = self.ev(n.func)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                seq = self.tolist(self.ev(a.value))
                if any(g is not True for g, _ in seq):
                    return self.call_guarded(f, args, seq, n)
                args += [v for _, v in seq]
            else: args.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, Ref) and self.rec(d).kind == "dict":
                    for kk, v in self.rec(d).m.values():
                        if v is not ABSENT: kw[kk] = v
                elif isinstance(d, G): raise Unknown("gated **kwargs")
            else: kw[k.arg] = self.ev(k.value)
        self.stats["calls"] += 1
        return self.call(f, args, kw, n)

    def call_guarded(self, f, args, seq, n):
        """f(*args, *seq) with optional elements."""
        if isinstance(f, Ext) and f.name in ("zip", "max", "min", "print"):
            return self.M.guarded_call(self, f.name, args, seq)
        def go(i, acc):
            if i == len(seq): return self.call(f, args + acc, {}, n)
            g, v = seq[i]
            if g is True: return go(i + 1, acc + [v])
            return self.two(g, lambda: go(i + 1, acc + [v]), lambda: go(i + 1, acc))
        return go(0, [])

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        return self.each(f, lambda x: self.call_leaf(x, list(args), dict(kw), node))

    def call_leaf(self, f, args, kw, node=None):
        if isinstance(f, Fn): return self.call_fn(f, args, kw)
        if isinstance(f, Meth):
            if isinstance(f.fn, Fn): return self.call_fn(f.fn, [f.self_] + args, kw)
            return self.call_meth(f.self_, f.fn, args, kw)
        if isinstance(f, Ext): return self.M.call_ext(self, f.name, args, kw, node)
        if isinstance(f, Ref):
            r = self.rec(f)
            if r.kind == "cls": return self.instantiate(f, args, kw)
            if r.kind == "obj":
                m = self.getattr(f, "__call__", soft=True)
                if m is not ABSENT: return self.call(m, args, kw)
            if r.kind == "partial":
                return self.call(r.items[0][1], [v for _, v in r.items[1:]] + args, {**{k: v for k, v in (r.m or {}).values()}, **kw})
        if isinstance(f, T) and f.ty in ("unk", "ext", "any", "obj"): return self.M.call_unknown(self, f, args, kw)
        if isinstance(f, Exc): return f
        if isinstance(f, Ref): raise Unknown("call of " + self.rec(f).kind)
        self.raise_if(True, wrong(f))

    def instantiate(self, cref, args, kw):
        r = self.rec(cref)
        if r.items is not None:      # enum lookup by value
            v = args[0]
            out = Exc("ValueError")
            for val, o in r.items:
                vv = self.rec(o).m["value"][1]
                out = ite(self.compare2("==", v, vv), o, out)
            return self.settle(out)
        if self.is_exc_class(cref): return Exc(self.exc_name(cref))
        o = self.alloc(Rec("obj", m={}, cls=cref, name=r.name))
        init = self.class_attr(cref, "__init__")
        if init is not ABSENT: self.call(init, [o] + args, kw)
        return o

    def is_exc_class(self, cref):
        for b in self.rec(cref).base or ():
            if isinstance(b, Ext) and exc_class(b.name) is not None: return True
            if isinstance(b, Ref) and self.is_exc_class(b): return True
        return False

    def class_attr(self, cref, name):
        r = self.rec(cref)
        if name in r.m: return r.m[name][1]
        for b in r.base or ():
            if isinstance(b, Ref):
                v = self.class_attr(b, name)
                if v is not ABSENT: return v
        return ABSENT

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        m = {}
        names = [p.arg for p in pos]
        if len(args) > len(pos) and not a.vararg: self.raise_if(True, Exc("TypeError", f.name))
        for n, v in zip(names, args): m[n] = v
        if a.vararg: m[a.vararg.arg] = tuple(args[len(pos):])
        kw = dict(kw)
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n in kw:
                if n in m: self.raise_if(True, Exc("TypeError", f.name))
                m[n] = kw.pop(n)
        if kw and not a.kwarg: self.raise_if(True, Exc("TypeError", f.name))
        if a.kwarg: m[a.kwarg.arg] = self.newdict(kw.items())
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            if n not in m: m[n] = d
        for k, d in zip(a.kwonlyargs, f.kwdefaults):
            if k.arg not in m and d is not ABSENT: m[k.arg] = d
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n not in m: self.raise_if(True, Exc("TypeError", f.name))
        return m

    def call_fn(self, f, args, kw):
        q = f.mod + "." + f.name
        if q in self.models: return self.models[q](self, args, kw)
        if len(self.frames) > self.maxdepth: raise Broken("call depth exceeded at " + q)
        self.stats["functions"].add(q)
        m = self.bind_args(f, args, kw)
        if q in self.before: self.before[q](self, m)
        env = self.alloc(Rec("env", m={n: (n, v) for n, v in m.items()}))
        fr = Frame([env.id] + f.scopes, f, f.mod)
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            try: return self.ev(f.node.body)
            finally: self.frames.pop()
        saved, self.exits = self.exits, []
        if f.isgen: fr.yields = self.newlist([], "iter")
        self.frames.append(fr)
        outs = []
        try:
            if self.run_block(f.node.body): outs.append((self.st, None))
        finally:
            self.frames.pop()
            ex = self.exits
            self.exits = saved
        groups = {}
        for k, v, st in ex:
            if k == "return": outs.append((st, v))
            else: groups.setdefault((v.name, str(v.arg)) if isinstance(v, Exc) else None, []).append((st, v))
        for lst in groups.values():
            for st, v in lst: self.exits.append(("raise", v, st))
        m = self.merge(outs)
        if m is None:
            self.st = self.st.fork(False)
            raise Dead()
        self.st, v = m
        if not f.keep and not f.isgen: self.st.heap.pop(env.id, None)
        return fr.yields if f.isgen else v

    def call_meth(self, o, name, args, kw):
        return self.M.method(self, o, name, args, kw)

    # ---------------------------------------------------------------- attributes and items
    def getattr(self, o, name, soft=False):
        return self.each(o, lambda x: self.getattr_leaf(x, name, soft))

    def getattr_leaf(self, x, name, soft=False):
        if isinstance(x, Ref):
            r = self.rec(x)
            if r.kind == "mod":
                v = self.attr_of_module(r.name, name)
                if v is ABSENT:
                    if soft: return ABSENT
                    self.raise_if(True, Exc("AttributeError", name))
                return v
            if r.kind == "obj":
                v = r.m[name][1] if name in r.m else ABSENT
                v = constrain(v, self.st.pc)
                miss = gmap(lambda y: y is ABSENT, v)
                if miss is False or not self.ok(miss): return v
                c = self.class_attr(r.cls, name) if r.cls is not None else ABSENT
                if c is not ABSENT:
                    def bindc():
                        if isinstance(c, Fn):
                            if c.kind == "property": return self.call_fn(c, [x], {})
                            if c.kind == "static": return c
                            return Meth(c, x if c.kind != "class" else r.cls)
                        return c
                    return self.two(miss, bindc, lambda: v)
                if name == "__class__": return r.cls
                if name == "__dict__": return self.newdict((k, v2) for k, v2 in r.m.values())
                if soft: return v if miss is not True else ABSENT
                self.raise_if(miss, Exc("AttributeError", name))
                return constrain(v, self.st.pc)
            if r.kind == "cls":
                v = self.class_attr(x, name)
                if v is not ABSENT:
                    if isinstance(v, Fn) and v.kind == "class": return Meth(v, x)
                    return v
                if name == "__name__": return r.name
                if soft: return ABSENT
                self.raise_if(True, Exc("AttributeError", name))
            if soft and name.startswith("__"): return ABSENT
            return Meth(name, x)
        if isinstance(x, Ext):
            return self.M.ext_attr(self, x, name)
        if isinstance(x, Fn):
            if name == "__name__": return x.name
            return Meth(name, x)
        if soft: return ABSENT
        if isinstance(x, Exc):
            return self.M.exc_attr(self, x, name)
        if x is None: self.raise_if(True, Exc("AttributeError", name))
        return self.M.val_attr(self, x, name)

    def setattr(self, o, name, v):
        def f(x):
            if isinstance(x, Ref):
                r = self.rec(x)
                if r.kind in ("obj", "mod", "cls"):
                    self.own(x).m[name] = (name, v)
                    return None
            if isinstance(x, (Ext, T)):
                self.effect("setattr", x, name, v)
                return None
            self.raise_if(True, Exc("AttributeError", name))
        self.each(o, f)

    def base_get(self, base, k):
        """Value of key k in the unknown part of a dictionary."""
        if base is None: return ABSENT
        if isinstance(base, G): return gmap1(lambda b: self.base_get(b, k), base)
        return ite(has(base, k), mk("item", base, k, ty=VALTY.get(base, "any")), ABSENT)

    def dget(self, r, k):
        kk = key(k)
        if isconst(k):
            v = r.m[kk][1] if kk in r.m else self.base_get(r.base, k)
            for k2, v2 in r.m.values():
                if isinstance(k2, T) and k2.op != "concat":
                    c = compare("==", k2, k)
                    if c is False or isinstance(c, Exc): continue
                    c = and_(c, present(v2))
                    v = ite(c, v2, v)
            return v
        if kk in r.m:
            v = r.m[kk][1]
            if r.base is not None or isinstance(k, Ref) or present(v) is True: return v
            for k2, v2 in r.m.values():
                c = self.alias(k, k2)
                if c is not False: v = ite(present(v), v, ite(and_(c, present(v2)), v2, ABSENT))
            return v
        if isinstance(k, Ref): return ABSENT
        v = self.base_get(r.base, k)
        for k2, v2 in r.m.values():
            c = self.alias(k, k2)
            if c is False: continue
            v = ite(and_(c, present(v2)) if r.base is None else c, v2, v)
        return v

    def alias(self, k, k2):
        """Condition under which two different key terms denote the same key (composed strings are taken to be distinct)."""
        if isinstance(k2, Ref) or isinstance(k, Ref) or key(k) == key(k2): return False
        if isinstance(k2, T) and isinstance(k, T) and "concat" in (k2.op, k.op): return False
        if isinstance(k2, str) and isinstance(k, T) and k.op == "concat": return False
        if isinstance(k, str) and isinstance(k2, T) and k2.op == "concat": return False
        return gmap(lambda y: y is True, compare("==", k, k2))

    def getitem(self, o, k):
        return self.each(o, lambda x: self.getitem_leaf(x, k))

    def getitem_leaf(self, x, k):
        if isinstance(k, Slice): return self.getslice(x, k)
        if isinstance(x, Ref):
            r = self.rec(x)
            if r.kind == "dict":
                def f(kk):
                    if isinstance(kk, Ref): return Exc("TypeError")
                    v = self.dget(r, kk)
                    return gmap1(lambda y: Exc("KeyError", kk if isconst(kk) else "key") if y is ABSENT else y, v)
                return self.pure(f, k)
            if r.kind == "bytearray": return self.getitem(r.items[0][1], k)
            if r.kind in ("list", "deque", "iter"):
                return self.pure(lambda i: self.index(r, i), k)
            if r.kind == "obj":
                m = self.getattr(x, "__getitem__", soft=True)
                if m is not ABSENT: return self.call(m, [k], {})
            if r.kind == "cls" and r.items is not None:
                return self.pure(lambda n: r.m[n][1] if n in r.m else Exc("KeyError"), k)
            raise Unknown("item of " + r.kind)
        return self.pure(lambda i: getitem_val(x, i), k)

    def index(self, r, i):
        n = len(r.items)
        if isinstance(i, T):
            if i.ty not in ("int", "bool"): return wrong(i)
            v = Exc("IndexError")
            for j in range(n): v = ite(ncmp("==", i, j), self.nth(r.items, j), v)
            return gmap1(lambda y: Exc("IndexError") if y is ABSENT else y, v)
        if not isinstance(i, int): return Exc("TypeError")
        items = r.items
        if r.base is not None and i < 0: raise Unknown("negative index into open list")
        if all(g is True for g, _ in items):
            return items[i][1] if -n <= i < n else Exc("IndexError")
        if i < 0: v = self.nth(items[::-1], -i - 1)
        else: v = self.nth(items, i)
        return gmap1(lambda y: Exc("IndexError") if y is ABSENT else y, v)

    def getslice(self, x, s):
        if isinstance(x, Ref):
            r = self.rec(x)
            if r.kind == "bytearray":
                v = self.slice_val(r.items[0][1], s)
                return self.alloc(Rec("bytearray", items=[(True, v)]))
            if r.kind in ("list", "iter", "deque"):
                if any(isinstance(z, (G, T)) for z in (s.lo, s.hi, s.step)):
                    if s.step is None: return self.each(s.lo, lambda lo: self.each(s.hi, lambda hi: self.getslice(x, Slice(lo, hi, None)))) if any(isinstance(z, G) for z in (s.lo, s.hi)) else self.alloc(Rec("list", items=[(True, mk("listslice", x.id, ty="unk"))]))
                items = r.items
                if all(g is True for g, _ in items): return self.alloc(Rec("list", items=items[slice(s.lo, s.hi, s.step)]))
                lo, hi = s.lo or 0, s.hi
                if s.step is not None: raise Unknown("step slice of guarded list")
                # element j of the present ones kept when lo <= j < hi
                out = []
                total = 0
                for g, _ in items: total = gadd(total, ite(g, 1, 0))
                cnt = 0
                for g, v in items:
                    c = g
                    pos = cnt
                    for bound, ge in ((lo, True), (hi, False)):
                        if bound is None or (ge and bound == 0): continue
                        b = bound if bound >= 0 else gmax(gadd(total, bound), 0)
                        c = and_(c, gcompare(">=" if ge else "<", pos, b))
                    cnt = gadd(cnt, ite(g, 1, 0))
                    if c is not False: out.append((c, v))
                return self.alloc(Rec("list", items=out))
            if r.kind != "dict": raise Unknown("slice of " + r.kind)
            self.raise_if(True, Exc("TypeError"))
        return self.slice_val(x, s)

    def slice_val(self, x, s):
        def f(v, lo, hi, st):
            if st not in (None, 1):
                if isconst(v) and all(z is None or isinstance(z, int) for z in (lo, hi, st)): return v[slice(lo, hi, st)]
                if isinstance(v, T): return mk("stepslice", v, lo, hi, st, ty=v.ty)
                raise Unknown("step slice")
            if isinstance(v, tuple):
                if all(z is None or isinstance(z, int) for z in (lo, hi)): return v[lo:hi]
                raise Unknown("tuple slice")
            if isinstance(v, (str, bytes)) or isinstance(v, T) and v.ty in ("str", "bytes"):
                r = bysep(v, lo, hi)
                if r is not None: return r
                return fromend(v, lo, lambda lo: fromend(v, hi, lambda hi: slice_(v, lo, hi), True), False)
            if isinstance(v, T):
                if v.ty == "any": return ite(kind_is(v, "str", "list"), mk("slice", v, lo, hi, ty="any"), Exc("TypeError"))
                if v.ty in ("int", "float", "bool", "none"): return Exc("TypeError")
                return mk("slice", v, lo, hi, ty=v.ty)
            return wrong(v)
        return self.pure(f, x, s.lo, s.hi, s.step)

    def setitem(self, o, k, v):
        val = v
        def f(x):
            if isinstance(x, Ref):
                r = self.rec(x)
                if r.kind == "dict":
                    def g(kk):
                        w = self.own(x)
                        kx = key(kk)
                        v = val
                        if not isconst(kk) or any(not isconst(k2) for k2, _ in w.m.values()):
                            for q, (k2, v2) in list(w.m.items()):
                                if q == kx: continue
                                c = and_(self.alias(kk, k2), present(v2))
                                if c is False: continue
                                w.m[q] = (k2, ite(c, val, v2))
                                if w.base is None: v = ite(c, w.m[kx][1] if kx in w.m else ABSENT, v)
                        if kx in w.m and w.m[kx][1] is not ABSENT: w.m[kx] = (kk, v)
                        else:
                            w.m.pop(kx, None)
                            w.m[kx] = (kk, v)
                    if isinstance(k, Slice): self.raise_if(True, Exc("TypeError"))
                    return self.each(k, g)
                if r.kind in ("list", "deque"):
                    if isinstance(k, Slice): raise Unknown("slice assignment")
                    def g(i):
                        if not isinstance(i, int): 
                            if isinstance(i, T) and i.ty in ("int",):
                                w = self.own(x)
                                w.items = [(gd, ite(ncmp("==", i, j), v, old)) for j, (gd, old) in enumerate(w.items)]
                                self.raise_if(not_(ncmp("<", i, len(w.items))), Exc("IndexError"))
                                return
                            self.raise_if(True, wrong(i))
                        w = self.own(x)
                        if not all(gd is True for gd, _ in w.items): 
                            cnt, out = 0, []
                            hit = False
                            for gd, old in w.items:
                                here = and_(gd, gmap(lambda q: q == i, cnt))
                                hit = or_(hit, here)
                                out.append((gd, ite(here, v, old)))
                                cnt = gadd(cnt, ite(gd, 1, 0))
                            w.items = out
                            self.raise_if(not_(hit), Exc("IndexError"))
                            return
                        if not -len(w.items) <= i < len(w.items): self.raise_if(True, Exc("IndexError"))
                        w.items[i] = (True, v)
                    return self.each(k, g)
                if r.kind == "obj":
                    m = self.getattr(x, "__setitem__", soft=True)
                    if m is not ABSENT: return self.call(m, [k, v], {})
            if isinstance(x, T) and x.ty in ("unk", "ext", "any"):
                self.effect("setitem", x, k, v)
                return None
            if isinstance(x, Ref): raise Unknown("item assignment to " + self.rec(x).kind)
            self.raise_if(True, wrong(x))
        self.each(o, f)

    def delitem(self, o, k):
        def f(x):
            if isinstance(x, Ref):
                r = self.rec(x)
                if r.kind == "dict":
                    self.call_meth(x, "pop", [k], {})
                    return
                if r.kind in ("list", "deque") and isinstance(k, Slice):
                    if all(g is True for g, _ in r.items) and all(z is None or isinstance(z, int) for z in (k.lo, k.hi, k.step)):
                        w = self.own(x)
                        del w.items[slice(k.lo, k.hi, k.step)]
                        return
                    if isinstance(k.lo, (int, type(None))) and not k.lo and k.step is None and isinstance(k.hi, int):
                        new = self.getslice(x, Slice(k.hi, None, None))
                        self.own(x).items = list(self.rec(new).items)
                        return
                    raise Unknown("del slice")
                if r.kind == "bytearray" and isinstance(k, Slice) and k.lo in (None, 0) and k.step is None:
                    v = self.slice_val(r.items[0][1], Slice(k.hi, None, None))
                    self.own(x).items = [(True, v)]
                    return
                if r.kind in ("list", "deque"):
                    self.call_meth(x, "pop", [k] if not (r.kind == "deque") else [k], {})
                    return
            raise Unknown("del item")
        self.each(o, f)


class Slice:
    __slots__ = ("lo", "hi", "step")
    def __init__(self, a, b, c): self.lo, self.hi, self.step = a, b, c


def unfold(v):
    """Alternatives of a factored bytes choice."""
    if isinstance(v, T): return v.args[0] if v.op == "choose" else v
    if isinstance(v, G): return gmap(lambda x: x.args[0] if isinstance(x, T) and x.op == "choose" else x, v)
    return v


def gmap1(f, v):
    """gmap whose function may return gated values."""
    if not isinstance(v, G): return f(v)
    r = None
    for c, x in leaves(v):
        y = f(x)
        r = [y] if r is None else [ite(c, y, r[0])]
    return r[0]


def has(c, x):
    if isinstance(x, T) and x.op == "elem" and x.args[0] is c: return True
    return batom("has", c, x)


def elem(x, i):
    """x[i] of a list of unknown contents (i within bounds)."""
    if isinstance(i, T) and x.ty == "list[str]":
        d = arithnum("-", i, length(x)) if not isinstance(length(x), G) else None
        if isinstance(d, int) and d < 0: i = d
    if x.op == "slice" and isinstance(i, int):
        y, lo, hi = x.args
        if i >= 0 and (lo is None or isinstance(lo, int) and lo >= 0): return elem(y, i + (lo or 0))
        if i < 0 and hi is None and isinstance(lo, int): return elem(y, i)      # len(x) >= -i, so y is long enough
    if x.op == "split" and len(x.args) == 3 and isinstance(i, int) and isinstance(x.args[2], int) and x.args[2] > 0 and x.args[1] is not None:
        s, sep, mx = x.args
        full = mk("split", s, sep, ty="list[str]")
        if 0 <= i < mx: return elem(full, i)
        if i == mx == 1: return mk("after", s, sep, ty="str")
        if i == -1 and mx == 1: return ite(ncmp(">", length(full), 1), mk("after", s, sep, ty="str"), s)
    if x.op == "rsplit" and len(x.args) == 3 and isinstance(i, int) and isinstance(x.args[2], int) and x.args[2] > 0 and x.args[1] is not None:
        s, sep, mx = x.args
        full = mk("split", s, sep, ty="list[str]")
        if -mx <= i < 0: return elem(full, i)
        if mx == 1: return ite(ncmp(">", length(full), 1), mk("before", s, sep, ty="str") if i == 0 else elem(full, -1), s)
    return mk("item", x, i, ty="str" if x.ty == "list[str]" else "any")


def subconst(c, x):
    """x in 'constant string'."""
    return batom("substr", x, c)


def gcompare_safe(a, b):
    r = False
    for c, x in leaves(a):
        for d, y in leaves(b):
            cc = and_(c, d)
            if cc is False: continue
            if isinstance(x, Ref) or isinstance(y, Ref): v = x == y
            elif isinstance(x, Ext) or isinstance(y, Ext): v = x is y
            else: v = compare("==", x, y)
            r = ite(cc, gmap(lambda z: z is True, v), r)
    return r


def bysep(v, lo, hi):
    """Slices of a string at the position of a separator, written with find / rfind / index."""
    pos = lambda z: isinstance(z, T) and z.op in ("m:find", "m:rfind") and len(z.args) == 2 and z.args[0] is v and isinstance(z.args[1], str) and z.args[1] != ""
    if lo in (None, 0) and pos(hi):
        sp = mk("split", v, hi.args[1], ty="list[str]")
        got = elem(sp, 0) if hi.op == "m:find" else mk("before", v, hi.args[1], ty="str")
        return ite(ops.contains(v, hi.args[1]), got, slice_(v, 0, -1))
    if hi is None and isinstance(lo, T) and lo.op == "lin" and len(lo.args[0]) == 1:
        (t, k), c = lo.args[0][0], lo.args[1]
        if pos(t) and k == 1 and c == len(t.args[1]):
            sp = mk("split", v, t.args[1], ty="list[str]")
            got = mk("after", v, t.args[1], ty="str") if t.op == "m:find" else elem(sp, -1)
            return ite(ops.contains(v, t.args[1]), got, slice_(v, c - 1, None) if c > 1 else v)
    return None


def fromend(v, b, fn, stop):
    """fn(bound), with a bound written as len(v) - n replaced by -n (where v is long enough)."""
    L = length(v)
    if not (isinstance(b, T) and isinstance(L, T) and b.ty == "int"): return fn(b)
    d = ops.arithnum("-", b, L)
    if d == 0 and stop: return fn(None)
    if not isinstance(d, int) or d >= 0: return fn(b)
    return ite(ncmp(">=", L, -d), fn(d), fn(b))


def getitem_val(x, i):
    """x[i] for non-heap leaves."""
    if isconst(x) and isconst(i) and not isinstance(x, Exc):
        try: return x[i]
        except Exception as e: return Exc(type(e).__name__)
    if isinstance(x, tuple):
        if isinstance(i, int): return x[i] if -len(x) <= i < len(x) else Exc("IndexError")
        if isinstance(i, T) and i.ty in ("int", "bool"):
            v = Exc("IndexError")
            for j in range(len(x)): v = ite(ncmp("==", i, j), x[j], v)
            return v
        return wrong(i)
    if isinstance(x, T):
        t = x.ty
        if t in ("str", "bytes", "list[str]", "list[any]"):
            if tyof(i) not in ("int", "bool"): return wrong(i)
            L = length(x)
            if isinstance(i, int): okc = gcompare(">", L, i) if i >= 0 else gcompare(">=", L, -i)
            else: okc = and_(gcompare(">", L, i), ncmp(">=", i, 0))
            if t == "bytes":
                if isinstance(i, int): v = byte_at(x, i)
                else: v = mk("byte", x, i, ty="int", rng=(0, 255))
            elif t == "str": v = mk("item", x, i, ty="str")
            else: v = elem(x, i)
            return ite(okc, v, Exc("IndexError"))
        if t == "any":
            isd, isl, iss = kind_is(x, "dict"), kind_is(x, "list"), kind_is(x, "str")
            v = mk("item", x, i, ty="any")
            if tyof(i) == "str" or (isinstance(i, T) and i.op == "elem"):
                seq = Exc("TypeError")
            else:
                L = mk("len", x, ty="int", rng=(0, math.inf))
                if isinstance(i, int): seq = ite(ncmp(">", L, i) if i >= 0 else ncmp(">=", L, -i), v, Exc("IndexError"))
                else: seq = v
            return ite(isd, ite(has(x, i), v, Exc("KeyError", i if isconst(i) else "key")), ite(or_(isl, iss), seq, Exc("TypeError")))
        if t in ("unk", "ext", "obj"): return mk("item", x, i, ty="unk")
        if t == "dictT":
            return ite(has(x, i), mk("item", x, i, ty="any"), Exc("KeyError", i if isconst(i) else "key"))
        if t in ("int", "float", "bool", "none"): return Exc("TypeError")
        if t == "range": return arithnum("+", x.args[0], i) if tyof(i) == "int" else wrong(i)
        raise Unknown("item of " + str(t))
    if isinstance(x, (str, bytes)) and isinstance(i, T) and i.ty in ("int", "bool"):
        v = Exc("IndexError")
        for j in range(len(x)): v = ite(ncmp("==", i, j), x[j], v)
        return v
    return wrong(x, i)


def truth_leaf_g(v): return gmap1(truth_leaf, v)


def tname(x): return x.name[9:] if x.name.startswith("builtins.") else x.name


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<",
       ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
