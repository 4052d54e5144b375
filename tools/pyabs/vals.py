"""Value domain of pyabs: hash-consed terms, gated values (multi-terminal BDDs over condition atoms), and the
interval/equality theory used to discard contradictory paths."""
import math, sys
sys.setrecursionlimit(200000)


class Sentinel:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


ABSENT = Sentinel("ABSENT")     # missing dictionary key / unbound variable / absent list element
_ids = [0]


def nid():
    _ids[0] += 1
    return _ids[0]


class T:
    """Uninterpreted or arithmetic term."""
    __slots__ = ("op", "args", "ty", "id", "rng", "vars_", "lin_")
    def __repr__(self): return show(self)


class G:
    """Gated value: hi where atom holds, lo elsewhere."""
    __slots__ = ("atom", "hi", "lo", "id")
    def __repr__(self): return "(%s ? %r : %r)" % (show(self.atom), self.hi, self.lo)


class Ref:
    __slots__ = ("id",)
    def __init__(self, i): self.id = i
    def __eq__(self, o): return isinstance(o, Ref) and o.id == self.id
    def __hash__(self): return hash(("ref", self.id))
    def __repr__(self): return "@%d" % self.id


class Exc:
    """Exception marker: evaluation of an operation raises."""
    __slots__ = ("name", "arg")
    def __init__(self, name, arg=None): self.name, self.arg = name, arg
    def __eq__(self, o): return isinstance(o, Exc) and o.name == self.name and same(o.arg, self.arg)
    def __hash__(self): return hash(("exc", self.name))
    def __repr__(self): return "raise %s" % self.name


def key(v):
    """Typed identity of a leaf (1, True and 1.0 are different values)."""
    if isinstance(v, (T, G)): return v
    if isinstance(v, tuple): return ("tuple",) + tuple(key(x) for x in v)
    if isinstance(v, float): return ("float", repr(v))
    if isinstance(v, (bool, int, str, bytes, type(None))): return (type(v).__name__, v)
    return v


def same(a, b):
    if a is b: return True
    if isinstance(a, (T, G)) or isinstance(b, (T, G)): return False
    return type(a) is type(b) and key(a) == key(b)


_terms = {}
UNIV = {}      # id -> term


def mk(op, *args, ty="any", rng=None):
    k = (op, ty) + tuple(key(a) for a in args)
    t = _terms.get(k)
    if t is None:
        t = T(); t.op, t.args, t.ty, t.id, t.rng, t.vars_, t.lin_ = op, args, ty, nid(), rng, None, None
        _terms[k] = t
    return t


def sym(name, ty="any", rng=None):
    return mk("sym", name, ty=ty, rng=rng)


_g = {}


def mkg(atom, hi, lo):
    if same(hi, lo): return hi
    k = (atom.id, key(hi), key(lo))
    g = _g.get(k)
    if g is None:
        g = G(); g.atom, g.hi, g.lo, g.id = atom, hi, lo, nid()
        _g[k] = g
    return g


def cond(t):
    """A bool-typed term as a condition."""
    return mkg(t, True, False)


_ite = {}


def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if a is True and b is False: return c
    k = (c.id, key(a), key(b))
    r = _ite.get(k, _ite)
    if r is not _ite: return r
    top = c.atom
    if isinstance(a, G) and a.atom.id < top.id: top = a.atom
    if isinstance(b, G) and b.atom.id < top.id: top = b.atom
    r = mkg(top, ite(cof(c, top, 1), cof(a, top, 1), cof(b, top, 1)), ite(cof(c, top, 0), cof(a, top, 0), cof(b, top, 0)))
    _ite[k] = r
    return r


def cof(v, atom, hi):
    if isinstance(v, G) and v.atom is atom: return v.hi if hi else v.lo
    return v


def and_(a, b): return ite(a, b, False)
def or_(a, b): return ite(a, True, b)
def not_(a): return ite(a, False, True)


_con = {}


def constrain(f, c):
    """f where c holds, arbitrary (simpler) elsewhere."""
    if c is True or c is False or not isinstance(f, G): return f
    k = (f.id, c.id)
    r = _con.get(k, _con)
    if r is not _con: return r
    top = f.atom if f.atom.id <= c.atom.id else c.atom
    c1, c0 = cof(c, top, 1), cof(c, top, 0)
    if c1 is False: r = constrain(cof(f, top, 0), c0)
    elif c0 is False: r = constrain(cof(f, top, 1), c1)
    elif f.atom is not top: r = constrain(f, or_(c1, c0))
    else: r = mkg(top, constrain(f.hi, c1), constrain(f.lo, c0))
    _con[k] = r
    return r


_lv = {}


def leaves(v):
    """[(condition, leaf)] of a gated value."""
    if not isinstance(v, G): return [(True, v)]
    r = _lv.get(v.id)
    if r is None:
        d = {}
        a = cond(v.atom)
        na = not_(a)
        for c, x in leaves(v.hi): d[key(x)] = (and_(a, c), x)
        for c, x in leaves(v.lo):
            k = key(x)
            c2 = and_(na, c)
            d[k] = (or_(d[k][0], c2), x) if k in d else (c2, x)
        r = list(d.values())
        _lv[v.id] = r
    return r


def gmap(f, v):
    """Apply a pure leaf function to every leaf."""
    if not isinstance(v, G): return f(v)
    r = False
    first = True
    for c, x in leaves(v):
        y = f(x)
        r = y if first else ite(c, y, r)
        first = False
    return r


def present(v):
    """Condition under which v is not ABSENT."""
    return gmap(lambda x: x is not ABSENT, v)


# ------------------------------------------------------------- theory
def isnum(v): return isinstance(v, (int, float)) and not isinstance(v, bool)


class Theory:
    """Conjunction of literals: per term an interval (with strictness), excluded values, an equality and possible NaN."""
    def __init__(self): self.d = {}
    def copy(self):
        n = Theory(); n.d = dict(self.d); return n

    def add(self, atom, val):
        op = atom.op
        if op in ("lt", "le", "gt", "ge", "eq") and len(atom.args) == 2 and isinstance(atom.args[0], T) and not isinstance(atom.args[1], (T, G, Ref)):
            x, c = atom.args
            # [lo, lostrict, hi, histrict, eq(or ABSENT), excluded frozenset, nonnan]
            e = self.d.get(x)
            if e is None:
                lo, hi = x.rng if x.rng else (-math.inf, math.inf)
                e = (lo, False, hi, False, ABSENT, frozenset(), False)
            lo, ls, hi, hs, eq, ex, nn = e
            if op == "eq":
                if val:
                    if eq is not ABSENT and not same(eq, c) and not (isnum(eq) and isnum(c) and eq == c): return False
                    eq = c
                    if isnum(c):
                        if c < lo or c > hi or (ls and c == lo) or (hs and c == hi): return False
                        nn = True
                        lo, hi, ls, hs = c, c, False, False
                    if key(c) in ex: return False
                    if isinstance(c, str) and x.ty == "str":
                        import ops
                        n = ops.length(x)
                        if isinstance(n, int) and n != len(c): return False
                        if isinstance(n, T) and n.op == "len" and not self.add(mk("eq", n, len(c), ty="bool"), True): return False
                else:
                    if eq is not ABSENT and (same(eq, c) or isnum(eq) and isnum(c) and eq == c): return False
                    ex = ex | {key(c)}
            else:
                if not isnum(c): return True
                isf = x.ty != "int"
                if val:
                    nn = True
                    if op == "lt" and (c < hi or c == hi): hi, hs = c, True
                    elif op == "le" and c < hi: hi, hs = c, False
                    elif op == "gt" and c >= lo: lo, ls = c, True
                    elif op == "ge" and c > lo: lo, ls = c, False
                else:
                    # negative literal: either NaN or the complement
                    if isf and not nn:
                        e2 = self.d.get((x, "neg"), ())
                        self.d[(x, "neg")] = e2 + ((op, c),)
                        self.d[x] = (lo, ls, hi, hs, eq, ex, nn)
                        return self._negok(x)
                    if op == "lt" and c > lo: lo, ls = c, False
                    elif op == "le" and c >= lo: lo, ls = c, True
                    elif op == "gt" and c < hi: hi, hs = c, False
                    elif op == "ge" and c <= hi: hi, hs = c, True
            if x.ty == "int":
                if ls and lo != -math.inf: lo, ls = math.floor(lo) + 1, False
                if hs and hi != math.inf: hi, hs = math.ceil(hi) - 1, False
                for _ in range(4):
                    if lo != -math.inf and key(lo) in ex: lo += 1
                    if hi != math.inf and key(hi) in ex: hi -= 1
            self.d[x] = (lo, ls, hi, hs, eq, ex, nn)
            if lo > hi or (lo == hi and (ls or hs)): return False
            if isnum(eq) and (eq < lo or eq > hi or (ls and eq == lo) or (hs and eq == hi)): return False
            if nn and (x, "neg") in self.d:
                negs = self.d.pop((x, "neg"))
                for o, cc in negs:
                    if not self.add(mk(o, x, cc, ty="bool"), False): return False
            return True
        return True

    def _negok(self, x): return True

    def point(self, x):
        """The single value x can have, or ABSENT."""
        e = self.d.get(x)
        if e is None: return ABSENT
        lo, ls, hi, hs, eq, ex, nn = e
        if eq is not ABSENT: return eq
        if lo == hi and not ls and not hs and (nn or x.ty == "int"): return lo
        return ABSENT


def paths(c, th=None, lits=()):
    """Theory-consistent paths of a gated value: yields (literals, theory, leaf)."""
    if th is None: th = Theory()
    if not isinstance(c, G):
        yield lits, th, c
        return
    for val in (1, 0):
        sub = c.hi if val else c.lo
        if sub is False: continue
        t2 = th.copy()
        if not t2.add(c.atom, bool(val)): continue
        if not rel_ok(c.atom, bool(val), lits): continue
        yield from paths(sub, t2, lits + ((c.atom, bool(val)),))


def rel_ok(atom, val, lits):
    """Simple relational consistency between atoms over two terms and length atoms."""
    if atom.op in ("lt", "le", "gt", "ge", "eq") and isinstance(atom.args[1], T):
        a, b = atom.args
        for at, v in lits:
            if at.op in ("lt", "le", "gt", "ge", "eq") and isinstance(at.args[1], T):
                if at.args == (a, b): o2 = at.op
                elif at.args == (b, a): o2 = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq"}[at.op]
                else: continue
                S = {"lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}, "eq": {0}}
                full = {-1, 0, 1, 9}     # 9: unordered
                A = S[atom.op] if val else full - S[atom.op]
                B = S[o2] if v else full - S[o2]
                if not A & B: return False
    if atom.op == "lenge":
        x, n = atom.args
        for at, v in lits:
            if at.op == "lenge" and at.args[0] is x:
                if val and not v and n >= at.args[1]: return False
                if not val and v and n <= at.args[1]: return False
    return True


_feas = {}


def feasible(c):
    if c is True: return True
    if c is False: return False
    r = _feas.get(c.id)
    if r is None:
        r = False
        for l, th, leaf in paths(c):
            if leaf is True:
                r = True
                break
        _feas[c.id] = r
    return r


# ------------------------------------------------------------- printing
def show(v, d=0):
    if isinstance(v, T):
        if v.op == "sym": return str(v.args[0])
        if d > 6: return "..."
        a = [show(x, d + 1) for x in v.args]
        if v.op == "item": return "%s[%s]" % (a[0], a[1])
        if v.op == "has": return "%s in %s" % (a[1], a[0])
        if v.op in ("lt", "le", "gt", "ge", "eq"): return "%s %s %s" % (a[0], {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=="}[v.op], a[1])
        if v.op in "+-*/%&|^" or v.op in ("//", "<<", ">>"): return "(%s%s%s)" % (a[0], v.op, a[1])
        return "%s(%s)" % (v.op, ", ".join(a))
    if isinstance(v, G): return "(%s ? %s : %s)" % (show(v.atom), show(v.hi, d + 1), show(v.lo, d + 1)) if d < 4 else "(...)"
    if isinstance(v, tuple): return "(" + ", ".join(show(x, d + 1) for x in v) + ")"
    return repr(v)


def showlits(lits, n=12):
    s = [("" if v else "not ") + show(a) for a, v in lits]
    return " and ".join(s[-n:]) if s else "always"
