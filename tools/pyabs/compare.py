"""Comparison of two gated values (the code's and the reference rule's).

Two leaves agree when they have the same normal form.  Where normal forms differ, the difference is confirmed before it
is reported: the differing terms are instantiated with values from the intervals the path condition leaves for their
variables, and the two *terms* are evaluated.  Terms that never separate, or that contain unmodelled (`unk`) parts, are
recorded as undecided and never reported."""
import binascii, codecs, datetime, itertools, math, random, re, struct
from vals import *
from ops import rng_of, lin, isconst, SIZES
import ops

RNDSEED = 12345


class Need(Exception):
    pass


def is_unk(t):
    return t.op in ("unk", "unkop", "mcall") or t.ty == "unk" and t.op in ("attr",)


def subterms(v, acc):
    """All terms inside a value."""
    if isinstance(v, G):
        if v.id in acc: return
        acc[v.id] = v
        subterms(v.atom, acc); subterms(v.hi, acc); subterms(v.lo, acc)
    elif isinstance(v, T):
        if v.id in acc: return
        acc[v.id] = v
        for a in v.args: subterms(a, acc)
    elif isinstance(v, tuple):
        for a in v: subterms(a, acc)


def has_unk(v):
    acc = {}
    subterms(v, acc)
    return any(isinstance(t, T) and is_unk(t) for t in acc.values())


# ------------------------------------------------------------------ evaluation of terms
def parse_time(s, default=None):
    m = re.fullmatch(r"\s*(\d{1,2}):(\d{2})(?::(\d{2})(?:\.\d+)?)?\s*", s)
    d = default or datetime.datetime(2024, 5, 6)
    if m and int(m.group(1)) < 24 and int(m.group(2)) < 60 and int(m.group(3) or 0) < 60:
        return d.replace(hour=int(m.group(1)), minute=int(m.group(2)), second=int(m.group(3) or 0))
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.\d+)?Z?", s)
    if m: return datetime.datetime(*map(int, m.groups()))
    raise ValueError(s)


def tofloat_ok(f, *a):
    try:
        f(*a)
        return True
    except (ValueError, TypeError, OverflowError, struct.error, UnicodeError, binascii.Error): return False


def jtname(v):
    if isinstance(v, bool): return "bool"
    if isinstance(v, int): return "int"
    if isinstance(v, float): return "float"
    if isinstance(v, str): return "str"
    if isinstance(v, dict): return "dict"
    if isinstance(v, list): return "list"
    return "none"


E = {}
def e(*names):
    def d(f):
        for n in names: E[n] = f
        return f
    return d


for _o, _f in ops.PYOP.items(): E[_o] = (lambda f: lambda x, *a: f(*a))(_f)
E["lt"] = lambda x, a, b: a < b
E["le"] = lambda x, a, b: a <= b
E["gt"] = lambda x, a, b: a > b
E["ge"] = lambda x, a, b: a >= b
E["eq"] = lambda x, a, b: (type(a) == type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)))) and a == b
for _o in ("lt", "le", "gt", "ge"): E["s" + _o] = E[_o]
E["jt"] = lambda x, a: jtname(a)
E["num"] = lambda x, a: a
E["str"] = lambda x, a: a if isinstance(a, str) else int("not a string")
E["int"] = lambda x, a: int(a)
E["intb"] = lambda x, a, b: int(a, b)
E["float"] = lambda x, a: float(a)
E["round"] = lambda x, a, *n: round(a, *n)
E["fmt"] = lambda x, s, a: format(a, s)
E["concat"] = lambda x, *a: (b"" if isinstance(a[0], bytes) else "").join(a)
E["slice"] = lambda x, v, a, b: v[a:b]
E["stepslice"] = lambda x, v, a, b, c: v[a:b:c]
E["upper"] = lambda x, a: a.upper()
E["lower"] = lambda x, a: a.lower()
E["hex"] = lambda x, a, c: hexof(x, a, c)
E["unhex"] = lambda x, a: binascii.unhexlify(a)
E["badhex"] = lambda x, a: not tofloat_ok(binascii.unhexlify, a)
E["encode"] = lambda x, a, enc: a.encode(enc)
E["decode"] = lambda x, a, enc: a.decode(enc)
E["undecodable"] = lambda x, a, enc: not tofloat_ok(lambda: a.decode(enc))
E["nonascii"] = lambda x, a: not tofloat_ok(lambda: a.encode("ascii"))
E["badint"] = lambda x, a: not tofloat_ok(int, a)
E["badfloat"] = lambda x, a: not tofloat_ok(float, a)
E["badintb"] = lambda x, a, b: not tofloat_ok(int, a, b)
E["nonfinite"] = lambda x, a: not math.isfinite(a)
E["isnan"] = lambda x, a: math.isnan(a)
E["isfinite"] = lambda x, a: math.isfinite(a)
E["isinf"] = lambda x, a: math.isinf(a)
E["isinteger"] = lambda x, a: a == int(a)
E["len"] = lambda x, a: len(a)
E["repeat"] = lambda x, a, n: a * n
E["chr"] = lambda x, a: chr(a)
E["ord"] = lambda x, a: ord(a)
E["hexint"] = lambda x, a: hex(a)
E["crc"] = lambda x, a, i: binascii.crc_hqx(a, i)
E["bytesof"] = lambda x, *a: bytes(a)
E["byte"] = lambda x, v, i: v[i]
E["u"] = lambda x, v, off, ch: struct.unpack(ch, v[off:off + SIZES[ch[-1]]] if off >= 0 else v[off:][:SIZES[ch[-1]]])[0]
E["pack1"] = lambda x, ch, v, n: packv(ch, v, n)
E["split"] = lambda x, v, sep, *m: v.split(sep, *m)
E["rsplit"] = lambda x, v, sep, *m: v.rsplit(sep, *m)
E["after"] = lambda x, v, sep: v.partition(sep)[2]
E["before"] = lambda x, v, sep: v.rpartition(sep)[0]
E["replace"] = lambda x, v, *a: v.replace(*a)
E["zfill"] = lambda x, v, n: v.zfill(n)
E["startswith"] = lambda x, v, p: v.startswith(p)
E["endswith"] = lambda x, v, p: v.endswith(p)
E["substr"] = lambda x, v, c: v in c
E["contains"] = lambda x, c, v: v in c
E["truthy"] = lambda x, v: bool(v)
E["frombytes"] = lambda x, v, o, s: int.from_bytes(v, o, signed=s)
E["tobytes"] = lambda x, v, n, o: v.to_bytes(n, o)
E["fit"] = lambda x, v, n: v[:n].ljust(n, b"\0")
E["choose"] = lambda x, v: v
E["td"] = lambda x, s: datetime.timedelta(seconds=s)
E["seconds"] = lambda x, d: d.total_seconds()
E["dtdiff"] = lambda x, a, b: naive(a) - naive(b)
E["dtadd"] = lambda x, a, s: a + datetime.timedelta(seconds=s)
E["strptime"] = lambda x, s, f: datetime.datetime.strptime(s, f)
E["badtime"] = lambda x, s, f: not tofloat_ok(datetime.datetime.strptime, s, f)
E["parse"] = lambda x, s, d: parse_time(s, d)
E["badparse"] = lambda x, s: not tofloat_ok(parse_time, s)
E["dtpart"] = lambda x, d, n: getattr(d, n)()
E["combine"] = lambda x, a, b: datetime.datetime.combine(a, b)
E["dtreplace"] = lambda x, d, kv: d.replace(**{k: v for k, v in kv if k != "tzinfo"})
E["strftime"] = lambda x, d, f: d.strftime(f)
E["strftime_gm"] = lambda x, f, t: (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=math.floor(t))).strftime(f)
E["fromts"] = lambda x, t: datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=math.floor(t))
E["timestamp"] = lambda x, d: d.replace(tzinfo=datetime.timezone.utc).timestamp()
E["field"] = lambda x, d, n: getattr(parse_time(d) if isinstance(d, str) else d, n)
E["tdfield"] = lambda x, d, n: getattr(d, n)
E["abs"] = lambda x, a: abs(a)
E["neg"] = lambda x, a: -a
E["strip"] = lambda x, v, *c: v.strip(*c)
E["lstrip"] = lambda x, v, *c: v.lstrip(*c)
E["rstrip"] = lambda x, v, *c: v.rstrip(*c)
# terms that may take any value of their type, independently of the others
FREE = {"sym", "item", "elem", "has", "attr", "isexc", "now", "badjson", "badformat", "calcsize", "gzip", "jt", "num"}
E["iso"] = lambda x, d, *a: d.isoformat(*a)


def naive(d): return d.replace(tzinfo=None)


def hexof(x, a, c):
    h = a.hex()
    h = h.upper() if c == "u" else h
    return h.encode() if x.ty == "bytes" else h


def packv(ch, v, n):
    if ch[-1] == "s": return bytes(v)[:n].ljust(n, b"\0")
    return struct.pack(ch, int(v) if ch[-1] not in "fde" else v)


def computed(t):
    if t.op == "item": return isinstance(t.args[0], T) and (t.args[0].ty in ("str", "bytes", "list[str]")) and t.args[0].op not in ("sym",) or isinstance(t.args[0], T) and t.args[0].op == "sym" and t.args[0].ty in ("str", "bytes")
    if t.op == "lin": return True
    if t.op in ("lower", "upper") and t.ty not in ("str", "bytes"): return False
    return t.op in E or t.op[:2] == "m:"


class Ev:
    def __init__(self, env): self.env, self.memo = env, {}

    def __call__(self, v):
        if isinstance(v, T):
            if v in self.env: return self.env[v]
            r = self.memo.get(v.id, Need)
            if r is not Need: return r
            if not computed(v): raise Need(v)
            if v.op == "lin":
                d, c = v.args
                r = c
                for t, k in d: r = r + k * self(t)
            elif v.op == "item":
                r = self(v.args[0])[self(v.args[1])]
            elif v.op[:2] == "m:":
                a = [self(q) for q in v.args]
                r = getattr(a[0], v.op[2:])(*a[1:])
                if isinstance(r, tuple): r = list(r)
            else:
                r = E[v.op](v, *[self(a) for a in v.args])
            self.memo[v.id] = r
            return r
        if isinstance(v, G): return self(v.hi if self(v.atom) else v.lo)
        if isinstance(v, tuple): return tuple(self(a) for a in v)
        if isinstance(v, Exc): return ("exc", v.name)
        return v


def basevars(vs):
    acc, out, seen = {}, [], set()
    def go(v):
        if isinstance(v, G):
            if v.id in seen: return
            seen.add(v.id)
            go(v.atom); go(v.hi); go(v.lo)
        elif isinstance(v, T):
            if v.id in seen: return
            seen.add(v.id)
            if computed(v):
                for a in v.args: go(a)
            else: out.append(v)
        elif isinstance(v, tuple):
            for a in v: go(a)
    for v in vs: go(v)
    return out


def cells(vs):
    """Finite-domain base terms the values depend on: bytes of packets, bounded integers, booleans; None if there are others."""
    out, seen = [], set()
    def go(v):
        if isinstance(v, G): return v.id in seen or (seen.add(v.id) or True) and go(v.atom) and go(v.hi) and go(v.lo)
        if isinstance(v, T):
            if v.id in seen: return True
            seen.add(v.id)
            if v.op == "u" and v.rng and v.rng[1] - v.rng[0] < 70000 or not computed(v) and (v.ty == "bool" or v.ty == "int" and v.rng is not None and v.rng[1] - v.rng[0] < 70000):
                out.append(v)
                return True
            return computed(v) and all(go(a) for a in v.args)
        if isinstance(v, tuple): return all(go(a) for a in v)
        return True
    if not all(go(v) for v in vs): return None
    # overlapping views of one packet would not be independent
    spans = {}
    for t in out:
        if t.op == "u":
            x, off, ch = t.args
            if not isinstance(off, int) or off < 0: return None
            for q in range(off, off + SIZES[ch[-1]]):
                if (x.id, q) in spans or not (isinstance(x, T) and x.op == "sym"): return None
                spans[(x.id, q)] = 1
    return out if len(out) <= 4 else None


POOL = ["", "abc", "12", "-5", "1.5", "12:34:56", "00:00:01", "23:59:59", "12:00:00", "00:30:00", "123456", "A B", "0aff", "x", "zzz", "\u20ac", "nan", " pad ", "MiXed", "a,b", "-", "0", "a longer value, 31 characters up"]
DT = [datetime.datetime(2024, 5, 6, h, m, s) for h, m, s in ((12, 0, 0), (0, 0, 0), (23, 59, 59), (0, 59, 59), (1, 0, 0), (23, 0, 0), (22, 59, 59), (0, 30, 0), (23, 30, 0), (6, 7, 8))]


def pick(t, th, rnd, pools):
    """A value for base term t inside the interval the path leaves."""
    if t in pools:
        return rnd.choice(pools[t])
    ty = t.ty
    d = th.d
    ent = d.get(t)
    if ty == "any":
        j = d.get(mk("jt", t, ty="str"))
        kinds = [j[4]] if j and j[4] is not ABSENT else [k for k in ops.JT if not (j and ("str", k) in j[5])]
        if not j: kinds = ["float", "int", "str"]
        k = rnd.choice(kinds)
        if k in ("int", "float", "bool"):
            n = num_in(d.get(mk("num", t, ty="float")), k == "int", t.rng, rnd)
            return bool(n) if k == "bool" else n
        if k == "str":
            s = d.get(mk("str", t, ty="str")) or ent
            if s and s[4] is not ABSENT and isinstance(s[4], str): return s[4]
            return rnd.choice(POOL)
        return {"dict": {}, "list": [], "none": None}.get(k)
    if ty == "float" and t.rng is None and rnd.random() < (0.4 if (t, "neg") in d else 0.05) and not (ent and ent[6]): return math.nan
    if ty in ("int", "float"): return num_in(ent, ty == "int", t.rng, rnd)
    if ty == "bool":
        return rnd.random() < 0.5
    if ty == "str":
        if ent and ent[4] is not ABSENT: return ent[4]
        return rnd.choice(POOL)
    if ty == "bytes":
        if ent and ent[4] is not ABSENT: return ent[4]
        n = ops.LEN.get(t)
        if n is None:
            le = d.get(mk("len", t, ty="int", rng=(0, math.inf)))
            n = num_in(le, True, (0, 300), rnd) if le else rnd.choice((0, 1, 2, 3, 5, 16, 22, 32))
            n = min(int(n), 300)
        return bytes(rnd.randrange(256) for _ in range(n))
    if ty == "datetime": return rnd.choice(DT)
    if ty == "timedelta": return datetime.timedelta(seconds=rnd.choice((0, 1, 3599, 3600, 3601, 86400)))
    if ty in ("list[str]", "list[any]"): return [rnd.choice(POOL) for _ in range(rnd.randrange(8))]
    return ("opaque", t.id)


def num_in(ent, isint, rng, rnd):
    lo, hi = rng or (-math.inf, math.inf)
    ls = hs = False
    if ent:
        if ent[4] is not ABSENT and isnum(ent[4]): return ent[4]
        lo, ls, hi, hs = max(lo, ent[0]), ent[1], min(hi, ent[2]), ent[3]
    c = []
    step = 1 if isint else 0.25
    if lo > -math.inf: c += [lo if not ls else lo + (step if isint else min(step, (hi - lo) / 2 if hi < math.inf else step)), lo + step, lo + 3 * step]
    if hi < math.inf: c += [hi if not hs else hi - (step if isint else min(step, (hi - lo) / 2 if lo > -math.inf else step)), hi - step, hi - 7 * step]
    a, b = max(lo, -1e6), min(hi, 1e6)
    if b < a: a = b = lo if lo > -math.inf else hi
    c += [rnd.randint(math.ceil(a), math.floor(b)) if math.floor(b) >= math.ceil(a) else a, rnd.uniform(a, b) if not isint else a, 0, 1, 7]
    c = [x for x in c if lo <= x <= hi and not (ls and x == lo) and not (hs and x == hi)] or [a]
    x = rnd.choice(c)
    return int(x) if isint else x


def repair(ev, atom, want, rnd):
    """Change one variable so that a violated literal becomes true.  Returns True if something changed."""
    if atom.op not in ("lt", "le", "gt", "ge", "eq") or isinstance(atom.args[1], (str, bytes)):
        return False
    a, b = atom.args
    if isinstance(b, T): d, c = dict(lin(a)[0]), 0; return False
    d, c0 = lin(a)
    try: cur = ev(a)
    except Exception: return False
    if not isinstance(cur, (int, float)) or not isinstance(b, (int, float)): return False
    op = atom.op
    if op == "eq": delta = b - cur if want else 1
    elif want: delta = {"lt": b - cur - 1, "le": b - cur, "gt": b - cur + 1, "ge": b - cur}[op]
    else: delta = {"lt": b - cur, "le": b - cur + 1, "gt": b - cur, "ge": b - cur - 1}[op]
    vs = list(d.items())
    rnd.shuffle(vs)
    for t, k in vs:
        step = delta / k
        if t.ty == "int":
            if step != int(step): step = math.floor(step) if delta < 0 else math.ceil(step)
            step = int(step)
        if setvar(ev, t, ev(t) + step): return True
    return False


def setvar(ev, t, v):
    lo, hi = rng_of(t)
    if v < lo or v > hi: return False
    if t.op == "u" and isinstance(t.args[0], T) and t.args[0] in ev.env and isinstance(t.args[1], int):
        x, off, ch = t.args
        bs = bytearray(ev.env[x])
        n = SIZES[ch[-1]]
        if off < 0: off += len(bs)
        if off + n > len(bs): return False
        try: bs[off:off + n] = struct.pack(ch, v)
        except struct.error: return False
        ev.env[x] = bytes(bs); ev.memo.clear()
        return True
    if t.op == "num" and t.args[0] in ev.env:
        ev.env[t.args[0]] = v; ev.memo.clear(); return True
    if t in ev.env:
        ev.env[t] = v; ev.memo.clear(); return True
    if t.op in ("len",) and t.args[0] in ev.env and isinstance(ev.env[t.args[0]], (bytes, str)) and v < 400:
        x = ev.env[t.args[0]]
        ev.env[t.args[0]] = (x + (b"\x11" if isinstance(x, bytes) else "q") * int(v))[:int(v)]; ev.memo.clear(); return True
    return False


def bounds(v, th):
    """(lo, strict, hi, strict) of a number under a path's literals; None if it may be NaN or is no number."""
    if isinstance(v, (bool, int, float)) and v == v: return (v, False, v, False)
    if not isinstance(v, T) or v.ty not in ("int", "float"): return None
    lo, hi = rng_of(v)
    ls = hs = False
    ent = th.d.get(v)
    isf = v.ty == "float"
    if v.op == "lin":
        d, c = lin(v)
        a = [bounds(t, th) for t in d]
        if any(x is None for x in a): return None
        l = h = c
        l_ = h_ = False
        for (t, k), (p, ps, q, qs) in zip(d.items(), a):
            if k < 0: p, ps, q, qs = q, qs, p, ps
            l, l_, h, h_ = l + p * k, l_ or ps, h + q * k, h_ or qs
        if l > lo or l == lo and l_: lo, ls = l, l_
        if h < hi or h == hi and h_: hi, hs = h, h_
    elif v.op == "int" and len(v.args) == 1 and isinstance(v.args[0], T) and v.args[0].ty == "float":
        b = bounds(v.args[0], th)
        if b is None: return None
        p, ps, q, qs = b
        if p > -math.inf:
            m = math.trunc(p) + (1 if ps and p == math.trunc(p) and p < 0 else 0)
            lo = max(lo, m)
        if q < math.inf:
            m = math.trunc(q) - (1 if qs and q == math.trunc(q) and q > 0 else 0)
            hi = min(hi, m)
    elif isf and v.rng is None and not (ent and ent[6]): return None
    if ent:
        if ent[0] > lo or ent[0] == lo and ent[1]: lo, ls = ent[0], ent[1]
        if ent[2] < hi or ent[2] == hi and ent[3]: hi, hs = ent[2], ent[3]
        if ent[4] is not ABSENT and isnum(ent[4]): return (ent[4], False, ent[4], False)
    return (lo, ls, hi, hs)


def along(v, lits):
    """v with conditional parts inside it resolved by a path's literals."""
    if isinstance(v, tuple): return tuple(along(a, lits) for a in v)
    while isinstance(v, G):
        w = [val for a, val in lits if a is v.atom]
        if not w: return v
        v = v.hi if w[0] else v.lo
    return v


def pin(v, th):
    """v with the numbers a path leaves a single value for replaced by that value."""
    if not isinstance(v, T): return tuple(pin(a, th) for a in v) if isinstance(v, tuple) else v
    b = bounds(v, th)
    if b is not None and b[0] == b[2] and not b[1] and not b[3] and abs(b[0]) < math.inf: return int(b[0]) if v.ty == "int" else float(b[0])
    if v.op in ("sym", "has", "elem") or not computed(v): return v
    if v.op == "lin":
        d, c = lin(v)
        d2, c = {}, c
        for t, k in d.items():
            q = pin(t, th)
            if isinstance(q, T):
                dq, cq = lin(q)
                for t2, k2 in dq.items(): d2[t2] = d2.get(t2, 0) + k * k2
                c += k * cq
            else: c += k * q
        return ops.mklin(d2, c, v.ty)
    args = tuple(pin(a, th) for a in v.args)
    if all(p is q for p, q in zip(args, v.args)): return v
    if v.op != "item" and all(isconst(a) for a in args):
        try: return Ev({})(mk(v.op, *args, ty=v.ty, rng=v.rng))
        except Exception: pass
    return mk(v.op, *args, ty=v.ty, rng=v.rng)


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            if a != a and b != b: return True
            return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12
        return False
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if type(a) is not type(b): return a == b if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) else a is b
    return a == b


class Cmp:
    """Compares gated values; pools gives candidate values for some base terms."""
    def __init__(self, pools=None, tries=60, maxpaths=400, eq=None):
        self.pools = pools or {}
        self.tries, self.maxpaths, self.undecided, self.compared, self.eq = tries, maxpaths, [], 0, eq

    def leaf_eq(self, x, y):
        if same(x, y): return True
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): return all(self.leaf_eq(p, q) if not isinstance(p, G) and not isinstance(q, G) else p is q for p, q in zip(x, y))
        if isnum(x) and isnum(y): return close(x, y)
        if isinstance(x, T) and isinstance(y, T):
            if x.op == "lin" and y.op == "lin":
                dx, dy = dict(x.args[0]), dict(y.args[0])
                return dx.keys() == dy.keys() and all(close(dx[k], dy[k]) for k in dx) and close(x.args[1], y.args[1]) and x.ty == y.ty
            if x.op == y.op and x.ty == y.ty and len(x.args) == len(y.args) and x.op not in ("sym",): return all(self.leaf_eq(p, q) for p, q in zip(x.args, y.args))
        if self.eq is not None: return self.eq(x, y)
        return False

    def diff(self, a, b, under=True, what=""):
        """First confirmed difference between a and b where `under` holds: (literals, a leaf, b leaf, witness) or None."""
        self.compared += 1
        if same(a, b) or under is False: return None
        a, b = constrain(a, under), constrain(b, under)
        if same(a, b): return None
        for ca, x in leaves(a):
            ca = and_(ca, under)
            if ca is False: continue
            for cb, y in leaves(b):
                if self.leaf_eq(x, y): continue
                c = and_(ca, cb)
                if c is False: continue
                r = self.confirm(c, x, y, what)
                if r is not None: return r
        return None

    def reach(self, c, what=""):
        """Is condition c confirmed reachable?  (witness or None)"""
        r = self.diff(c, False, True, what)
        return r

    def confirm(self, c, x, y, what):
        n = 0
        unk = has_unk(x) or has_unk(y)
        und = 0
        for lits, th, leaf in paths(c):
            if leaf is not True: continue
            n += 1
            if n > self.maxpaths: self.undecided.append((what, "more than %d differing paths" % self.maxpaths)); break
            if unk or any(has_unk(a) for a, _ in lits):
                und += 1
                continue
            if self.leaf_eq(pin(along(x, lits), th), pin(along(y, lits), th)): continue
            w = self.exhaust(lits, x, y)
            if w is True: continue
            if w is None: w = self.witness(lits, th, x, y)
            if w is None:
                und += 1
                last = lits
                continue
            return lits, x, y, w
        if und: self.undecided.append((what, "%s vs %s" % (show(x)[:120], show(y)[:120])))
        return None

    def exhaust(self, lits, x, y):
        """Complete evaluation over a small finite domain: True (equal everywhere), a witness, or None (not applicable)."""
        cs, n = cells([a for a, _ in lits] + [x, y]), 1
        if cs is None: return None
        dom = []
        for t in cs:
            if t.ty == "bool": dom.append((t, (False, True)))
            else:
                lo, hi = rng_of(t)
                if t.ty != "int" or hi - lo > 70000: return None
                dom.append((t, range(int(lo), int(hi) + 1)))
            n *= len(dom[-1][1])
            if n > 70000: return None
        for vals in itertools.product(*[r for _, r in dom]):
            env = {t: v for (t, _), v in zip(dom, vals)}
            ev = Ev(env)
            try:
                if any(bool(ev(a)) != w for a, w in lits): continue
                vx, vy = ev(x), ev(y)
            except (Need, ValueError, TypeError, KeyError, IndexError, OverflowError, ZeroDivisionError, struct.error, AttributeError, binascii.Error): return None
            if not close(vx, vy): return {show(t): v for t, v in env.items()}, vx, vy
        return True

    def witness(self, lits, th, x, y):
        rnd = random.Random(RNDSEED)
        vs = basevars([a for a, _ in lits] + [x, y])
        if any(t.op not in FREE for t in vs): return None       # an operation on other terms that cannot be evaluated here
        for k in range(self.tries):
            env = {}
            for t in vs: env[t] = pick(t, th, rnd, self.pools)
            for a, want in lits:
                if not computed(a): env[a] = want
            ev = Ev(env)
            # values of struct fields constrained by the path
            for t, ent in th.d.items():
                if isinstance(t, T) and t.op == "u" and t.args[0] in env and rnd.random() < 0.95:
                    try: setvar(ev, t, math.nan if t.ty == "float" and (t, "neg") in th.d and not ent[6] and rnd.random() < 0.6 else num_in(ent, t.ty == "int", t.rng, rnd))
                    except Exception: pass
            if k % 2:       # near misses: make an excluded equality almost hold
                for a, want in lits:
                    if a.op == "eq" and not want and isinstance(a.args[0], T) and isnum(a.args[1]):
                        try:
                            repair(ev, a, True, rnd)
                            for t in lin(a.args[0])[0]:
                                if t.ty == "int" and setvar(ev, t, int(ev(t)) ^ (1 << rnd.randrange(16))): break
                        except Exception: pass
            try:
                good = False
                for _ in range(6):
                    bad = [(a, w) for a, w in lits if self.truth(ev, a) != w]
                    if not bad: good = True; break
                    a, w = bad[rnd.randrange(len(bad))]
                    if not repair(ev, a, w, rnd): break
                if not good: continue
                vx, vy = ev(x), ev(y)
            except (Need, ValueError, TypeError, KeyError, IndexError, OverflowError, ZeroDivisionError, struct.error, AttributeError, binascii.Error): continue
            if not close(vx, vy):
                return {show(t): env[t] for t in vs if not isinstance(env[t], tuple)}, vx, vy
        return None

    def truth(self, ev, a): return bool(ev(a))


def describe(d):
    lits, x, y, w = d
    return "%s; code gives %s, rule gives %s; e.g. %s: %s instead of %s" % (showlits(lits)[:400], show(x)[:160], show(y)[:160], str(w[0])[:300], repr(w[1])[:120], repr(w[2])[:120])
