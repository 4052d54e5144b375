"""Library models for pyabs: builtins, containers, strings, struct, time, json, sockets, HTTP, threads, cffi."""
import math, re, string, struct as _struct
from vals import *
from ops import *
import ops
import interp as X
from interp import Rec, Ext, Fn, Meth, Slice, Exc, Broken, Unknown, gmap1, exc_class, gcompare_safe, Dead

F = {}


def ext(*names):
    def d(f):
        for n in names: F[n] = f
        return f
    return d


def install(I):
    I.ext = dict(F)


def need(I, args, n):
    if len(args) < n: I.raise_if(True, Exc("TypeError"))


def call_ext(I, name, args, kw, node=None):
    if name.startswith("builtins."): name = name[9:]
    f = I.ext.get(name)
    if f is None and name in I.ext: f = I.ext[name]
    if f is not None:
        return f(I, args, kw)
    if exc_class(name) is not None: return Exc(name, args[0] if args and isconst(args[0]) else None)
    if name.startswith(("logging.", "pprint.", "warnings.", "faulthandler.")): return None
    if name.startswith("math."): return math_fn(I, name[5:], args)
    return unknown_call(I, name, args, kw)


def unknown_call(I, name, args, kw):
    I.unknown[name] = I.unknown.get(name, 0) + 1
    I.effect("call", name, tuple(args), tuple(sorted(kw)))
    I.raise_if(I.freshatom(name + " raises"), Exc("*ext", name))
    return I.unk(name)


def call_unknown(I, f, args, kw):
    nm = show(f)
    I.effect("call", nm, tuple(args), tuple((k, v) for k, v in sorted(kw.items())))
    I.raise_if(I.freshatom(nm[:60] + " raises"), Exc("*ext", nm[:60]))
    return I.unk(nm[:60])


CONSTS = {"sys.version_info": (3, 12, 3), "math.inf": math.inf, "math.nan": math.nan, "math.pi": math.pi, "string.hexdigits": string.hexdigits,
          "sys.platform": "linux", "os.sep": "/", "string.digits": string.digits, "sys.argv": None}


def ext_attr(I, x, name):
    n = x.name + "." + name
    if n in I.attrs: 
        v = I.attrs[n]
        return v(I) if callable(v) else v
    if n in CONSTS and CONSTS[n] is not None: return CONSTS[n]
    if n == "datetime.datetime.min": return mk("dtmin", ty="datetime")
    if n in ("datetime.timezone.utc", "datetime.UTC", "time.time"): return Ext(n)
    if name == "__version__": return mk("attr", n, ty="str")
    if name == "__name__": return x.name.rsplit(".", 1)[-1]
    m = I.load(n) if "." not in x.name else None
    return m if m is not None else Ext(n)


def exc_attr(I, e, name):
    if name in ("args", "msg", "reason", "message", "strerror"): return mk("excattr", e.name, name, ty="unk")
    return Meth(name, e)


# ---------------------------------------------------------------- builtins
@ext("print")
def b_print(I, a, k):
    f = k.get("file")
    I.effect("print", f, tuple(a), tuple((x, v) for x, v in sorted(k.items()) if x != "file"))
    return None


def pure1(name):
    def d(f):
        def g(I, a, k):
            need(I, a, 1)
            return I.pure(f, I_unref(I, a[0]))
        F[name] = g
        return f
    return d


def I_unref(I, v):
    """Replace bytearrays by their content."""
    def f(x):
        if isinstance(x, Ref) and I.st.heap[x.id].kind == "bytearray": return I.st.heap[x.id].items[0][1]
        return x
    return gmap1(f, v)


@ext("len")
def b_len(I, a, k):
    need(I, a, 1)
    def f(x):
        if isinstance(x, Ref):
            r = I.rec(x)
            if r.kind == "bytearray": return gmap1(length, r.items[0][1])
            if r.kind == "dict":
                n = 0
                for _, v in r.m.values(): n = gadd(n, ite(present(v), 1, 0))
                if r.base is not None: return mk("dlen", r.base, ty="int", rng=(0, math.inf))
                return n
            if r.items is not None and r.kind != "cls":
                n = 0
                for g, _ in r.items: n = gadd(n, ite(g, 1, 0))
                return n
            if r.kind == "cls" and r.items is not None: return len(r.items)
            if r.kind == "obj":
                m = I.getattr(x, "__len__", soft=True)
                if m is not ABSENT: return I.call(m, [], {})
            raise Unknown("len of " + r.kind)
        if isinstance(x, (str, bytes, tuple)): return len(x)
        if isinstance(x, T):
            if x.op == "range": return gmax(arithnum("-", x.args[1], x.args[0]), 0)
            if x.ty in ("str", "bytes", "list[str]", "list[any]", "unk", "ext"): return length(x)
            if x.ty == "any": return ite(kind_is(x, "dict", "list", "str"), mk("len", x, ty="int", rng=(0, math.inf)), Exc("TypeError"))
        return wrong(x)
    if any(isinstance(x, Ref) and I.rec(x).kind == "obj" for _, x in I.cases(a[0])): return I.each(a[0], f)
    return I.pure(f, a[0])


def to_int(x):
    if isinstance(x, Ref): return Exc("TypeError")
    if isconst(x) and not isinstance(x, Exc):
        try: return int(x)
        except Exception as e: return Exc(type(e).__name__)
    if isinstance(x, T):
        if x.ty == "int": return x
        if x.ty == "bool": return ite(cond(x), 1, 0)
        if x.ty == "float": return trunc(x)
        if x.ty in ("str", "bytes"):
            if x.op == "fmt" and x.args[0] == "" and isinstance(x.args[1], T) and x.args[1].ty == "int": return x.args[1]
            return ite(batom("badint", x), Exc("ValueError"), mk("int", x, ty="int"))
        if x.ty == "any":
            s = strv(x)
            r = ite(kind_is(x, "str"), ite(batom("badint", s), Exc("ValueError"), mk("int", s, ty="int")), Exc("TypeError"))
            n = num(x)
            return ite(kind_is(x, "int", "float", "bool"), ite(batom("nonfinite", n), Exc("ValueError"), mk("int", n, ty="int")), r)
        if x.ty in ("unk", "ext"): return mk("int", x, ty="int")
    return wrong(x)


FINITE = [True]


def trunc(x):
    d, c = lin(x)
    if d and all(float(k).is_integer() for k in d.values()) and float(c).is_integer() and all(t.ty in ("int", "bool") for t in d):
        return mklin({t: int(k) for t, k in d.items()}, int(c), "int")
    lo, hi = rng_of(x)
    rng = (int(lo) if lo > -math.inf else -math.inf, int(hi) if hi < math.inf else math.inf)
    r = mk("int", x, ty="int", rng=rng)
    if x.rng is not None or FINITE[0]: return r
    return ite(batom("nonfinite", x), Exc("ValueError"), r)


@ext("int")
def b_int(I, a, k):
    if not a: return 0
    if len(a) > 1 or "base" in k:
        base = a[1] if len(a) > 1 else k["base"]
        def f(x, b):
            if isconst(x) and isconst(b):
                try: return int(x, b)
                except Exception as e: return Exc(type(e).__name__)
            if tyof(x) not in ("str", "bytes"): return wrong(x)
            return ite(batom("badintb", x, b), Exc("ValueError"), mk("intb", x, b, ty="int"))
        return I.pure(f, a[0], base)
    return I.pure(to_int, a[0])


@pure1("float")
def b_float(x):
    if isinstance(x, Ref): return Exc("TypeError")
    if isconst(x) and not isinstance(x, Exc):
        try: return float(x)
        except Exception as e: return Exc(type(e).__name__)
    if x.ty == "float": return x
    if x.ty in ("int", "bool"):
        d, c = lin(x)
        return mklin(d, float(c), "float")
    if x.ty == "str": return ite(batom("badfloat", x), Exc("ValueError"), mk("float", x, ty="float"))
    if x.ty == "any":
        s = strv(x)
        return ite(kind_is(x, "int", "float", "bool"), num(x), ite(kind_is(x, "str"), ite(batom("badfloat", s), Exc("ValueError"), mk("float", s, ty="float")), Exc("TypeError")))
    if x.ty in ("unk", "ext"): return mk("float", x, ty="float")
    return wrong(x)


F["float"] = lambda I, a, k: I.pure(b_float, a[0]) if a else 0.0


@ext("bool")
def b_bool(I, a, k): return I.truth(a[0]) if a else False


@ext("str")
def b_str(I, a, k):
    if not a: return ""
    if len(a) > 1: return method(I, a[0], "decode", a[1:], k)
    return I.tostr(a[0])


@ext("repr")
def b_repr(I, a, k): return I.tostr(a[0], True)


@ext("format")
def b_format(I, a, k): return I.pure(lambda x, s: fmt(x, s), a[0], a[1] if len(a) > 1 else "")


@ext("bytes", "bytearray")
def b_bytes(I, a, k):
    if not a: return b""
    def f(x):
        if isinstance(x, Ref):
            r = I.rec(x)
            if r.kind == "bytearray": return r.items[0][1]
            if r.items is not None:
                if all(same(g, True) for g, _ in r.items): return bytes_of(I, [v for _, v in r.items])
            return mk("bytes", I.freeze(x), ty="bytes")
        if isinstance(x, bytes): return x
        if isinstance(x, bool) or isinstance(x, int): return bytes(x)
        if isinstance(x, tuple): return bytes_of(I, list(x))
        if isinstance(x, str): 
            if len(a) > 1 or k: return x.encode()
            I.raise_if(True, Exc("TypeError"))
        if isinstance(x, T):
            if x.ty == "bytes": return x
            if x.ty == "int": return mk("repeat", b"\0", x, ty="bytes")
            if x.ty == "str": return method(I, x, "encode", a[1:], k)
            return mk("bytes", x, ty="bytes")
        I.raise_if(True, Exc("TypeError"))
    return I.each(a[0], f)


def bytes_of(I, vals):
    for v in vals:
        bad = I.pure(lambda x: or_(ncmp("<", x, 0), ncmp(">", x, 255)) if tyof(x) in ("int", "bool") else wrong(x), v)
        if bad is not False: I.raise_if(bad, Exc("ValueError"))
    if all(isinstance(v, int) for v in vals): return bytes(vals)
    if any(isinstance(v, G) for v in vals):
        one = lambda x: bytes([x]) if isinstance(x, int) else merge_bytes([x])
        return concat(b"", *[choice(I.pure(one, v)) for v in vals]) if all(isinstance(choice(I.pure(one, v)), (bytes, T)) for v in vals) else I.pure(lambda *vs: merge_bytes(vs), *vals)
    return I.pure(lambda *vs: bytes(vs) if all(isinstance(v, int) for v in vs) else merge_bytes(vs), *vals)


def merge_bytes(vs):
    parts, run = [], []
    t = mk("bytesof", *vs, ty="bytes")
    LEN[t] = len(vs)
    # a run of consecutive bytes of one source is that slice
    src = None
    if all(isinstance(v, T) and v.op == "u" and v.args[2] == "<B" for v in vs):
        x = vs[0].args[0]
        offs = [v.args[1] for v in vs]
        if all(v.args[0] is x for v in vs) and all(isinstance(o, int) for o in offs) and offs == list(range(offs[0], offs[0] + len(offs))) and offs[0] >= 0:
            return slice_(x, offs[0], offs[0] + len(offs))
    return t


def _bytearray(I, a, k):
    v = b_bytes(I, a, k)
    return I.alloc(Rec("bytearray", items=[(True, v)]))


F["bytearray"] = _bytearray


def _list(I, a, k):
    if not a: return I.newlist([])
    return I.alloc(Rec("list", items=I.tolist(a[0])))


F["list"] = _list


def _deque(I, a, k):
    r = _list(I, a[:1], {})
    I.own(r).kind = "deque"
    ml = k.get("maxlen", a[1] if len(a) > 1 else None)
    if ml is not None: I.own(r).name = ml
    return r


F["collections.deque"] = _deque


def _set(I, a, k):
    r = _list(I, a, k)
    I.own(r).kind = "set"
    return r


F["set"] = F["frozenset"] = _set


def _tuple(I, a, k):
    if not a: return ()
    seq = I.tolist(a[0])
    if any(g is not True for g, _ in seq):
        return I.alloc(Rec("list", items=seq))
    return tuple(v for _, v in seq)


F["tuple"] = _tuple


def _dict(I, a, k):
    r = I.newdict()
    if a: method(I, r, "update", a, {})
    for n, v in k.items(): I.setitem(r, n, v)
    return r


F["dict"] = _dict
F["collections.OrderedDict"] = _dict
F["collections.defaultdict"] = lambda I, a, k: unknown_call(I, "collections.defaultdict", a, k)


@ext("iter")
def b_iter(I, a, k):
    if len(a) == 2: return I.alloc(Rec("calliter", items=[(True, a[0]), (True, a[1])]))
    return a[0]


@ext("next")
def b_next(I, a, k):
    def f(x):
        if isinstance(x, Ref) and I.rec(x).kind in ("iter", "list"):
            items = I.rec(x).items
            v = I.nth(items, 0)
            d = a[1] if len(a) > 1 else Exc("StopIteration")
            out = gmap1(lambda y: d if y is ABSENT else y, v)
            if items and items[0][0] is True: I.own(x).items = items[1:]
            else:
                w, seen = [], False
                for g, e in items:
                    w.append((and_(g, seen), e)); seen = or_(seen, g)
                I.own(x).items = [p for p in w if p[0] is not False]
            return I.settle(out)
        return unknown_call(I, "next", a, k)
    return I.each(a[0], f)


@ext("range")
def b_range(I, a, k):
    a = [I.pure(lambda x: x if tyof(x) in ("int", "bool") else wrong(x), x) for x in a]
    def f(*xs):
        if all(isinstance(x, int) for x in xs):
            r = range(*xs)
            if len(r) > 20000: return mk("range", 0, len(r), ty="range")
            return tuple(r)
        if len(xs) == 1: return mk("range", 0, xs[0], ty="range")
        if len(xs) == 2 or xs[2] == 1: return mk("range", xs[0], xs[1], ty="range")
        raise Unknown("range step")
    return I.pure(f, *a)


@ext("enumerate")
def b_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    seq, more = I.iterate(a[0])
    out, n = [], start
    for g, v in seq:
        out.append((g, (n, v)))
        n = gadd(n, ite(g, 1, 0))
    return I.alloc(Rec("iter", items=out, base=more if more is not False else None))


@ext("reversed")
def b_reversed(I, a, k):
    return I.alloc(Rec("iter", items=I.tolist(a[0])[::-1]))


@ext("zip")
def b_zip(I, a, k):
    seqs = [I.tolist(x) for x in a]
    return I.alloc(Rec("iter", items=zip_seqs(I, seqs)))


def zip_seqs(I, seqs):
    if not seqs: return []
    n = min(len(s) for s in seqs)
    out = []
    if all(len(s) == len(seqs[0]) and all(same(p[0], q[0]) for p, q in zip(s, seqs[0])) for s in seqs):
        return [(seqs[0][i][0], tuple(s[i][1] for s in seqs)) for i in range(n)]
    for i in range(n):
        vs = [I.nth(s, i) for s in seqs]
        g = True
        for v in vs: g = and_(g, present(v))
        if g is False: break
        out.append((g, tuple(vs)))
    return out


def guarded_call(I, name, args, seq):
    if name == "zip" and not args:
        # columns of optional rows
        w = None
        for g, v in seq:
            for c, x in leaves(v):
                if isinstance(x, tuple): w = len(x) if w is None else min(w, len(x))
                else: raise Unknown("zip of non-tuples")
        anyg = False
        for g, _ in seq: anyg = or_(anyg, g)
        cols = [(anyg, I.alloc(Rec("list", items=[(g, gmap1(lambda t: t[j], v)) for g, v in seq]))) for j in range(w or 0)]
        return I.alloc(Rec("iter", items=cols))
    if name in ("max", "min"): return extreme(I, name, [(True, x) for x in args] + seq, Exc("TypeError"))
    raise Unknown("guarded call of " + name)


@ext("map")
def b_map(I, a, k):
    seqs = [I.tolist(x) for x in a[1:]]
    out = []
    for g, vs in (zip_seqs(I, seqs)):
        out.append((g, I.two(g, lambda: I.call(a[0], list(vs), {}), lambda: ABSENT)))
    return I.alloc(Rec("iter", items=out))


@ext("filter")
def b_filter(I, a, k):
    out = []
    for g, v in I.tolist(a[1]):
        c = I.two(g, lambda: I.truth(I.call(a[0], [v], {}) if a[0] is not None else v), lambda: False)
        c = and_(g, c)
        if c is not False: out.append((c, v))
    return I.alloc(Rec("iter", items=out))


@ext("any")
def b_any(I, a, k):
    r = False
    for g, v in I.tolist(a[0]): r = or_(r, and_(g, I.truth(v)))
    return r


@ext("all")
def b_all(I, a, k):
    r = True
    for g, v in I.tolist(a[0]): r = and_(r, or_(not_(g), I.truth(v)))
    return r


@ext("sum", "math.fsum")
def b_sum(I, a, k):
    r = a[1] if len(a) > 1 else 0
    for g, v in I.tolist(a[0]):
        s = I.two(g, lambda: I.binop("+", r, v), lambda: r)
        r = s
    return r


def extreme(I, name, seq, empty, default=None):
    r = ABSENT
    op = ">" if name == "max" else "<"
    for g, v in seq:
        def upd(r=r, v=v):
            return I.each(r, lambda x: v if x is ABSENT else I.pure(lambda y: gmap1(lambda b: b if isinstance(b, Exc) else y if b else x, compare(op, y, x)), v))
        r = I.two(g, upd, lambda r=r: r)
    if default is not None: empty = default[0]
    return I.settle(gmap1(lambda x: empty if x is ABSENT else x, r))


def _ext(name):
    def f(I, a, k):
        if "key" in k: return unknown_call(I, name, a, k)
        seq = I.tolist(a[0]) if len(a) == 1 else [(True, x) for x in a]
        return extreme(I, name, seq, Exc("ValueError"), [k["default"]] if "default" in k else None)
    F[name] = f


_ext("max"); _ext("min")


@ext("abs")
def b_abs(I, a, k):
    def f(x):
        if isconst(x):
            try: return abs(x)
            except Exception as e: return Exc(type(e).__name__)
        if x.ty == "timedelta": return mk("td", gmap1(f, secs(x)), ty="timedelta")
        if x.ty == "any": return ite(kind_is(x, "int", "float", "bool"), f(num(x)), Exc("TypeError"))
        if x.ty in ("int", "float", "bool"):
            d, c = lin(x)
            if len(d) > 0 and sorted(d.items(), key=lambda p: p[0].id)[0][1] < 0: x = arithnum("*", x, -1)       # |-x| is |x|
            return ite(ncmp("<", x, 0), arithnum("*", x, -1), x)
        return mk("abs", x, ty="unk")
    return I.pure(f, a[0])


@ext("round")
def b_round(I, a, k):
    def f(x, *n):
        if isconst(x):
            try: return round(x, *n)
            except Exception as e: return Exc(type(e).__name__)
        if tyof(x) == "any": x = num(x)
        if tyof(x) == "int" and not n: return x
        return mk("round", x, *n, ty="float" if n and n[0] is not None else "int")
    return I.pure(f, *a)


@ext("divmod")
def b_divmod(I, a, k): return (I.binop("//", a[0], a[1]), I.binop("%", a[0], a[1]))


@ext("pow")
def b_pow(I, a, k): return I.binop("**", a[0], a[1])


@ext("hex")
def b_hex(I, a, k):
    def f(x):
        if isconst(x):
            try: return hex(x)
            except Exception as e: return Exc(type(e).__name__)
        if tyof(x) not in ("int", "bool"): return wrong(x)
        if rng_of(x)[0] >= 0: return concat("0x", mk("fmt", "x", x, ty="str"))
        return mk("hexint", x, ty="str")
    return I.pure(f, a[0])


@ext("ord")
def b_ord(I, a, k):
    return I.pure(lambda x: ord(x) if isinstance(x, (str, bytes)) and len(x) == 1 else mk("ord", x, ty="int", rng=(0, 0x10ffff)) if isinstance(x, T) else Exc("TypeError"), a[0])


@ext("chr")
def b_chr(I, a, k): return I.pure(lambda x: chr(x) if isinstance(x, int) else mk("chr", x, ty="str"), a[0])


@ext("sorted")
def b_sorted(I, a, k):
    seq = I.tolist(a[0])
    if all(g is True and isconst(v) for g, v in seq) and "key" not in k:
        try: return I.newlist(sorted([v for _, v in seq], reverse=bool(k.get("reverse", False))))
        except TypeError: I.raise_if(True, Exc("TypeError"))
    if len(seq) <= 1: return I.alloc(Rec("list", items=seq))
    if len(seq) <= 4 and "key" not in k and k.get("reverse", False) in (False, True) and all(g is True for g, _ in seq) and all(tyof(y) in ("int", "float") for _, v in seq for _, y in leaves(v)):
        vs = [v for _, v in seq]       # numbers: exchange neighbours that are out of order
        for end in range(len(vs) - 1, 0, -1):
            for j in range(end):
                c = gcompare("<", vs[j + 1], vs[j])
                vs[j], vs[j + 1] = ite(c, vs[j + 1], vs[j]), ite(c, vs[j], vs[j + 1])
        return I.newlist(vs[::-1] if k.get("reverse") else vs)
    return I.alloc(Rec("list", items=[(g, mk("sorted", i, I.freeze(a[0]), ty="unk")) for i, (g, v) in enumerate(seq)]))


KINDN = {"dict": "dict", "list": "list", "deque": "collections.deque", "set": "set", "bytearray": "bytearray", "iter": "iterator", "queue": "queue.Queue", "mod": "module", "cls": "type"}


@ext("type")
def b_type(I, a, k):
    def f(x):
        if isinstance(x, Ref):
            r = I.rec(x)
            if r.kind == "obj": return r.cls if r.cls is not None else Ext("object")
            return Ext(KINDN.get(r.kind, "object"))
        if isinstance(x, Ext) and x.name in ("sys.stdin", "sys.stdout", "sys.stderr"): return Ext("io.TextIOWrapper")
        if isinstance(x, Ext) and x.name in ("sys.stdin.buffer", "sys.stdout.buffer"): return Ext("io.Buffered" + ("Reader" if "in" in x.name else "Writer"))
        t = tyof(x)
        if t == "any":
            r = Ext("NoneType")
            for kd in JT[:-1]: r = ite(kind_is(x, kd), Ext(kd), r)
            return r
        if t == "none": return Ext("NoneType")
        if t.startswith("list"): return Ext("list")
        if t == "dictT": return Ext("dict")
        if isinstance(x, Exc): return Ext(x.name)
        if t in ("unk", "ext", "obj"): return mk("type", x, ty="obj")
        return Ext(t if t in ("int", "float", "str", "bytes", "bool", "tuple") else "datetime.datetime" if t == "datetime" else t)
    return I.pure(f, a[0])


@ext("isinstance")
def b_isinstance(I, a, k):
    def one(x, c):
        if isinstance(c, tuple):
            r = False
            for y in c: r = or_(r, gmap1(lambda z: one(x, z), y))
            return r
        if isinstance(c, Ref):
            if isinstance(x, Ref):
                r = I.rec(x)
                return r.kind == "obj" and r.cls is not None and subclass(I, r.cls, c)
            if isinstance(x, Exc): return I.rec(c).name == x.name
            return False if not (isinstance(x, T) and x.ty in ("unk", "ext")) else batom("isinst", x, I.rec(c).name)
        n = c.name if isinstance(c, Ext) else "?"
        if n.startswith("builtins."): n = n[9:]
        if isinstance(x, Ref):
            kd = I.rec(x).kind
            return KINDN.get(kd) == n or n == "object" or (kd == "dict" and n.endswith(("Mapping", "MutableMapping"))) or (kd in ("list", "deque") and n.endswith("Sequence"))
        t = tyof(x)
        if n == "object": return True
        if t == "any":
            if n == "int": return kind_is(x, "int", "bool")
            if n in ("numbers.Number", "numbers.Real"): return kind_is(x, "int", "float", "bool")
            if n in JT: return kind_is(x, n)
            return False
        if t.startswith("list"): t = "list"
        if t == "dictT": t = "dict"
        if n in ("numbers.Number", "numbers.Real"): return t in NUM
        if n == "int": return t in ("int", "bool")
        if n == "datetime.datetime": return t == "datetime"
        if t in ("unk", "ext", "obj"): return batom("isinst", x, n)
        if isinstance(x, Exc): return I.matches(x, c)
        return t == n
    return I.pure(one, a[0], a[1])


def subclass(I, c, d):
    if c == d: return True
    return any(isinstance(b, Ref) and subclass(I, b, d) for b in I.rec(c).base or ())


@ext("getattr")
def b_getattr(I, a, k):
    n = a[1]
    if not isinstance(n, str): return unknown_call(I, "getattr", a, k)
    if len(a) == 3:
        v = I.getattr(a[0], n, soft=True)
        return gmap1(lambda y: a[2] if y is ABSENT else y, v)
    return I.getattr(a[0], n)


@ext("hasattr")
def b_hasattr(I, a, k):
    def f(x):
        if isinstance(x, Ref):
            v = I.getattr(x, a[1], soft=True)
            return present(v) if not isinstance(v, Meth) or isinstance(v.fn, Fn) else a[1] in METHODS.get(I.rec(x).kind, ())
        if isinstance(x, T): return batom("hasattr", x, a[1])
        if isconst(x): return hasattr(x, a[1])
        return True
    return I.each(a[0], f)


METHODS = {"list": dir([]), "dict": dir({}), "set": dir(set()), "bytearray": dir(bytearray())}


@ext("setattr")
def b_setattr(I, a, k): I.setattr(a[0], a[1], a[2])


@ext("callable")
def b_callable(I, a, k): return I.pure(lambda x: isinstance(x, (Fn, Meth, Ext)) or (batom("callable", x) if isinstance(x, T) and x.ty in ("unk", "ext", "any", "obj") else isinstance(x, Ref)), a[0])


@ext("id", "hash")
def b_id(I, a, k): return I.unk("id", "int")


@ext("super")
def b_super(I, a, k): return I.unk("super", "ext")


@ext("object")
def b_object(I, a, k): return I.alloc(Rec("obj", m={}))


@ext("bytes.fromhex", "bytearray.fromhex")
def b_fromhex(I, a, k):
    return I.pure(lambda x: unhex(x, "badhex", "ValueError"), a[0])


def unhex(x, atom, exc):
    if isinstance(x, (str, bytes)):
        try: return bytes.fromhex(x if isinstance(x, str) else x.decode())
        except Exception: return Exc(exc)
    if tyof(x) not in ("str", "bytes"): return wrong(x)
    if x.op == "hex": return x.args[0]
    return ite(batom(atom, x), Exc(exc), mk("unhex", x, ty="bytes"))


@ext("int.from_bytes")
def b_frombytes(I, a, k):
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    signed = k.get("signed", False)
    def f(x):
        if isinstance(x, bytes): return int.from_bytes(x, order, signed=signed)
        if tyof(x) != "bytes": return wrong(x)
        L = length(x)
        ch = {1: "b" if signed else "B", 2: "h" if signed else "H", 4: "i" if signed else "I", 8: "q" if signed else "Q"}.get(L) if isinstance(L, int) else None
        if ch: return u(x, 0, ch, "<" if order == "little" else ">")
        if not isinstance(L, int) and order in ("little", "big"):
            r = mk("frombytes", x, order, bool(signed), ty="int", rng=None if signed else (0, math.inf))
            for n, c in ((1, "bB"), (2, "hH"), (4, "iI"), (8, "qQ")): r = ite(gcompare("==", L, n), u(x, 0, c[0 if signed else 1], "<" if order == "little" else ">"), r)
            return r
        n = L if isinstance(L, int) else None
        rng = None if n is None else (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed and n else (0, (1 << (8 * n)) - 1) if n is not None else None
        return mk("frombytes", x, order, bool(signed), ty="int", rng=rng)
    return I.pure(f, I_unref(I, a[0]))


def math_fn(I, n, a):
    if n == "isnan": return I.pure(lambda x: math.isnan(x) if isconst(x) else False if isinstance(x, T) and (x.ty == "int" or x.rng) else batom("isnan", x), a[0])
    if n in ("isfinite", "isinf"): return I.pure(lambda x: getattr(math, n)(x) if isconst(x) else (n == "isfinite") if isinstance(x, T) and (x.ty == "int" or x.rng) else ite(ncmp("<", x, 0), ncmp("<", arithnum("*", x, -1), math.inf), ncmp("<", x, math.inf)) if n == "isfinite" else batom(n, x), a[0])
    if n in ("floor", "ceil", "trunc"):
        def f(x):
            if isconst(x): return getattr(math, n)(x)
            if tyof(x) == "any": x = num(x)
            if x.ty == "int": return x
            if n == "trunc": return trunc(x)
            return mk(n, x, ty="int")
        return I.pure(f, a[0])
    def g(*xs):
        if all(isconst(x) for x in xs):
            try: return getattr(math, n)(*xs)
            except Exception as e: return Exc(type(e).__name__)
        return mk("math." + n, *xs, ty="float")
    return I.pure(g, *a)


# ---------------------------------------------------------------- containers and strings
def method(I, o, name, args, kw):
    return I.each(o, lambda x: method_leaf(I, x, name, args, kw))


def method_leaf(I, x, name, a, k):
    if isinstance(x, Ref):
        r = I.rec(x)
        f = globals().get("m_%s_%s" % ({"iter": "list"}.get(r.kind, r.kind), name))
        if f is not None: return f(I, x, a, k)
        if r.kind == "deque":
            f = globals().get("m_list_" + name)
            if f is not None: return f(I, x, a, k)
        if r.kind == "bytearray":
            return method(I, r.items[0][1], name, a, k)
        if r.kind == "obj":
            I.raise_if(True, Exc("AttributeError", name))
        hook = I.ext.get("method:%s.%s" % (r.kind, name))
        if hook: return hook(I, x, a, k)
        if name in METHODS.get(r.kind, ()): raise Unknown("method %s of %s" % (name, r.kind))
        I.raise_if(True, Exc("AttributeError", name))
    if isinstance(x, Fn): return unknown_call(I, "function." + name, a, k)
    if isinstance(x, Exc): return mk("excstr", x.name, ty="str")
    t = tyof(x)
    if isinstance(x, T) and t in ("ext", "unk", "obj"):
        h = I.ext.get("method:%s.%s" % (x.op if x.op != "sym" else x.args[0], name))
        if h: return h(I, x, a, k)
        return call_unknown(I, mk("attr", x, name, ty="unk"), [x] + a, k)
    if isinstance(x, T) and t == "any":
        ok = [kd for kd, ty in (("str", str), ("dict", dict), ("list", list), ("int", int), ("float", float)) if hasattr(ty, name)]
        c = kind_is(x, *ok) if ok else False
        I.raise_if(not_(c), Exc("AttributeError", name))
        if ok == ["str"]: return method_leaf(I, strv(x), name, a, k)
        if ok == ["dict"]:
            if name == "get":
                return I.pure(lambda kk: ite(X.has(x, kk), mk("item", x, kk, ty="any"), a[1] if len(a) > 1 else None), a[0])
            if name in ("items", "keys", "values"):
                L = mk("len", x, ty="int", rng=(0, math.inf))
                K = I.loop_k or I.unroll
                el = lambda i: mk("elem", x, i, ty="any")
                vl = lambda i: mk("item", x, el(i), ty="any")
                pick = {"items": lambda i: (el(i), vl(i)), "keys": el, "values": vl}[name]
                return I.alloc(Rec("iter", items=[(ncmp(">", L, i), pick(i)) for i in range(K)], base=ncmp(">", L, K)))
        return mk("mcall", x, name, tuple(I.freeze(v) for v in a), ty="any")
    f = globals().get("s_%s_%s" % ("str" if t in ("str", "bytes") else t, name))
    if isconst(x) and not isinstance(x, Exc):
        fa = [I.freeze(v) for v in a]
        if all(isconst(v) for v in fa) and all(isconst(v) for v in k.values()) and not any(isinstance(v, Ref) for v in a) and not any(isinstance(v, G) for v in a):
            m = getattr(x, name, None)
            if m is None: I.raise_if(True, Exc("AttributeError", name))
            try: res = m(*a, **k)
            except Exception as e: I.raise_if(True, Exc(type(e).__name__))
            return lift(I, res)
        if f is None and not hasattr(x, name): I.raise_if(True, Exc("AttributeError", name))
    if f is not None: return f(I, x, a, k)
    if t in ("str", "bytes") and hasattr(str if t == "str" else bytes, name):
        return I.pure(lambda *vs: mk("m:" + name, x, *vs, ty=RETTY.get(name, t)), *[I.freeze(v) for v in a])
    if t == "tuple" and name in ("index", "count"):
        return I.unk("tuple." + name, "int")
    if t in ("list[str]", "list[any]"):
        if name in ("copy",): return x
        raise Unknown("method %s of a list of unknown length" % name)
    if t in ("datetime", "timedelta"): return dt_method(I, x, name, a, k)
    if t in ("int", "bool", "float") and hasattr(int if t != "float" else float, name):
        if name == "is_integer": return batom("isinteger", x)
        return mk("m:" + name, x, *a, ty="int")
    if t not in FIRM and not isconst(x) and not isinstance(x, tuple): raise Unknown("method %s of %s" % (name, t))
    I.raise_if(True, Exc("AttributeError", name))


RETTY = {"find": "int", "rfind": "int", "index": "int", "count": "int", "isdigit": "bool", "isalnum": "bool", "isalpha": "bool", "isnumeric": "bool",
         "isdecimal": "bool", "isspace": "bool", "isupper": "bool", "islower": "bool", "isascii": "bool", "splitlines": "list[str]", "isprintable": "bool"}


def lift(I, v):
    if isinstance(v, list): return I.newlist([lift(I, x) for x in v])
    if isinstance(v, dict): return I.newdict((k, lift(I, x)) for k, x in v.items())
    if isinstance(v, tuple): return tuple(lift(I, x) for x in v)
    return v


def m_list_append(I, x, a, k):
    r = I.own(x)
    r.items.append((True, a[0]))
    if r.kind == "deque" and isinstance(r.name, int) and not isinstance(r.name, bool) and all(g is True for g, _ in r.items) and len(r.items) > r.name: r.items = r.items[-r.name:]


def m_list_extend(I, x, a, k):
    seq, more = I.iterate(a[0])
    r = I.own(x)
    r.items += seq
    if more is not False: r.base = more


def m_list_insert(I, x, a, k):
    r = I.own(x)
    if all(g is True for g, _ in r.items) and isinstance(a[0], int): r.items.insert(a[0], (True, a[1]))
    elif a[0] == 0 and isinstance(a[0], int): r.items.insert(0, (True, a[1]))
    else: raise Unknown("insert")


def m_deque_appendleft(I, x, a, k): I.own(x).items.insert(0, (True, a[0]))


def m_list_pop(I, x, a, k):
    i = a[0] if a else -1
    items = I.rec(x).items
    def f(i):
        if isinstance(i, T): raise Unknown("pop of a symbolic index")
        seq = items if i >= 0 else items[::-1]
        n = i if i >= 0 else -i - 1
        v = I.settle(gmap1(lambda y: Exc("IndexError") if y is ABSENT else y, I.nth(seq, n)))
        out, cnt = [], 0
        for g, e in seq:
            hit = and_(g, gmap(lambda q: q == n, cnt))
            cnt = gadd(cnt, ite(g, 1, 0))
            g2 = and_(g, not_(hit))
            if g2 is not False: out.append((g2, e))
        I.own(x).items = out if i >= 0 else out[::-1]
        return v
    return I.each(i, f)


def m_deque_popleft(I, x, a, k): return m_list_pop(I, x, [0], {})
def m_list_clear(I, x, a, k): I.own(x).items = []
def m_list_copy(I, x, a, k): return I.alloc(I.rec(x).copy())
def m_list_reverse(I, x, a, k): I.own(x).items.reverse()
def m_set_clear(I, x, a, k): I.own(x).items = []


def m_list_index(I, x, a, k):
    r, cnt = Exc("ValueError"), 0
    out = []
    for g, v in I.rec(x).items:
        out.append((and_(g, gcompare_safe(v, a[0])), cnt))
        cnt = gadd(cnt, ite(g, 1, 0))
    for c, n in out[::-1]: r = ite(c, n, r)
    return I.settle(r)


def m_list_remove(I, x, a, k):
    found, out = False, []
    for g, v in I.rec(x).items:
        hit = and_(and_(g, gcompare_safe(v, a[0])), not_(found))
        found = or_(found, hit)
        g2 = and_(g, not_(hit))
        if g2 is not False: out.append((g2, v))
    I.raise_if(not_(found), Exc("ValueError"))
    I.own(x).items = out


def m_list_count(I, x, a, k):
    n = 0
    for g, v in I.rec(x).items: n = gadd(n, ite(and_(g, gcompare_safe(v, a[0])), 1, 0))
    return n


def m_list_sort(I, x, a, k):
    r = b_sorted(I, [x], k)
    I.own(x).items = list(I.rec(r).items)


def m_set_add(I, x, a, k):
    if I.contains(x, a[0]) is not True: I.own(x).items.append((not_(I.contains(x, a[0])), a[0]))


def m_set_discard(I, x, a, k):
    I.own(x).items = [(and_(g, not_(gcompare_safe(v, a[0]))), v) for g, v in I.rec(x).items]


def m_dict_get(I, x, a, k):
    d = a[1] if len(a) > 1 else None
    return I.pure(lambda kk: gmap1(lambda y: d if y is ABSENT else y, I.dget(I.rec(x), kk)), a[0])


def m_dict_pop(I, x, a, k):
    def f(kk):
        r = I.rec(x)
        v = I.dget(r, kk)
        d = a[1] if len(a) > 1 else Exc("KeyError", kk if isconst(kk) else None)
        out = I.settle(gmap1(lambda y: d if y is ABSENT else y, v))
        w = I.own(x)
        kx = key(kk)
        if kx in w.m:
            if w.base is None: del w.m[kx]
            else: w.m[kx] = (kk, ABSENT)
        elif w.base is not None: w.m[kx] = (kk, ABSENT)
        if isinstance(kk, T) and w.base is None:
            for k3, (k2, v2) in list(w.m.items()):
                c = compare("==", kk, k2) if not (isinstance(k2, str) and kk.op == "concat") else False
                if c is not False and not isinstance(c, Exc): w.m[k3] = (k2, ite(c, ABSENT, v2))
        return out
    return I.each(a[0], f)


def m_dict_setdefault(I, x, a, k):
    v = I.pure(lambda kk: I.dget(I.rec(x), kk), a[0])
    d = a[1] if len(a) > 1 else None
    w = gmap1(lambda y: d if y is ABSENT else y, v)
    I.setitem(x, a[0], w)
    return w


def m_dict_update(I, x, a, k):
    if a:
        def f(o):
            if isinstance(o, Ref) and I.rec(o).kind == "dict":
                src = I.rec(o)
                w = I.own(x)
                if src.base is not None:
                    if w.base is None: 
                        w.base = src.base
                        for kk, (k2, v2) in list(w.m.items()):
                            if kk not in src.m: w.m[kk] = (k2, gmap1(lambda y: v2 if y is ABSENT else y, I.base_get(src.base, k2)))
                    elif w.base is not src.base: raise Unknown("update of an open dictionary")
                for kk, (k2, v) in src.m.items():
                    old = w.m[kk][1] if kk in w.m else I.base_get(w.base, k2)
                    w.m[kk] = (k2, gmap1(lambda y: old if y is ABSENT else y, v))
                return
            if isinstance(o, T):
                if o.ty == "any": I.raise_if(not_(kind_is(o, "dict")), Exc("TypeError"))
                w = I.own(x)
                for kk, (k2, v2) in list(w.m.items()):
                    w.m[kk] = (k2, gmap1(lambda y: v2 if y is ABSENT else y, I.base_get(o, k2)))
                if w.base is None: w.base = o
                else: w.base = mk("merged", w.base, o, ty="any")
                return
            for g, p in I.tolist(o):
                kv = I.unpack(p, 2)
                I.two(g, lambda: I.setitem(x, kv[0], kv[1]), lambda: None)
        I.each(a[0], f)
    for n, v in k.items(): I.setitem(x, n, v)


def view(I, x, pick):
    r = I.rec(x)
    out = [(present(v), pick(k2, gmap1(lambda y: y, v))) for k2, v in r.m.values() if v is not ABSENT]
    base = None
    if r.base is not None:
        K = I.loop_k or I.unroll
        L = mk("len", r.base, ty="int", rng=(0, math.inf))
        for i in range(K):
            e = mk("elem", r.base, i, ty="str")
            out.append((ncmp(">", L, i), pick(e, mk("item", r.base, e, ty="any"))))
        base = ncmp(">", L, K)
    return I.alloc(Rec("iter", items=out, base=base))


def m_dict_items(I, x, a, k): return view(I, x, lambda kk, v: (kk, v))
def m_dict_keys(I, x, a, k): return view(I, x, lambda kk, v: kk)
def m_dict_values(I, x, a, k): return view(I, x, lambda kk, v: v)
def m_dict_copy(I, x, a, k): return I.alloc(I.rec(x).copy())
def m_dict_clear(I, x, a, k):
    r = I.own(x); r.m = {}; r.base = None


def m_bytearray_extend(I, x, a, k):
    v = I_unref(I, a[0])
    cur = I.rec(x).items[0][1]
    if not (isinstance(v, T) and tyof(v) == "bytes"): v = I.each(v, lambda y: y if tyof(y) == "bytes" else b_bytes(I, [y], {}))
    n = I.pure(lambda p, q: arith("+", p, q), cur, choice(v, 8), keep=True)
    I.own(x).items = [(True, n)]


def m_bytearray_append(I, x, a, k):
    v = bytes_of(I, [a[0]])
    cur = I.rec(x).items[0][1]
    I.own(x).items = [(True, I.pure(lambda p, q: arith("+", p, q), cur, choice(v, 8), keep=True))]


def m_bytearray_clear(I, x, a, k): I.own(x).items = [(True, b"")]
def m_bytearray_copy(I, x, a, k): return I.alloc(I.rec(x).copy())


def const_or(I, a, i, d): return a[i] if len(a) > i else d


def s_str_split(I, x, a, k):
    sep = a[0] if a else k.get("sep")
    mx = a[1] if len(a) > 1 else k.get("maxsplit")
    if mx is None or mx == -1: return mk("split", x, sep, ty="list[str]")
    return mk("split", x, sep, mx, ty="list[str]")


def s_str_rsplit(I, x, a, k):
    sep = a[0] if a else k.get("sep")
    mx = a[1] if len(a) > 1 else k.get("maxsplit")
    if mx is None: return mk("split", x, sep, ty="list[str]")
    t = mk("rsplit", x, sep, mx, ty="list[str]")
    return t


def s_str_partition(I, x, a, k):
    sp = mk("split", x, a[0], ty="list[str]")
    two = ncmp(">", length(sp), 1)
    return (X.elem(sp, 0), ite(two, a[0], ""), ite(two, mk("after", x, a[0], ty="str"), ""))


def s_str_rpartition(I, x, a, k):
    sp = mk("split", x, a[0], ty="list[str]")
    two = ncmp(">", length(sp), 1)
    return (ite(two, mk("before", x, a[0], ty="str"), ""), ite(two, a[0], ""), X.elem(sp, -1))


def _find(n):
    def f(I, x, a, k):
        lo = 0 if n == "count" else -1
        if tyof(x) != "str" or len(a) != 1: return I.pure(lambda *vs: mk("m:" + n, x, *vs, ty="int", rng=(lo, math.inf)), *[I.freeze(v) for v in a])
        return I.pure(lambda p: mk("m:" + n, x, p, ty="int", rng=(lo, math.inf)) if tyof(p) in ("str", "any") else wrong(p), a[0])
    return f


def _index(n):
    def f(I, x, a, k):
        if len(a) != 1 or not isinstance(a[0], str) or tyof(x) != "str": return I.pure(lambda *vs: mk("m:" + n, x, *vs, ty="int"), *[I.freeze(v) for v in a])
        I.raise_if(not_(ops.contains(x, a[0])), Exc("ValueError"))
        return mk("m:find" if n == "index" else "m:rfind", x, a[0], ty="int", rng=(-1, math.inf))
    return f


s_str_find, s_str_rfind, s_str_count, s_str_index, s_str_rindex = _find("find"), _find("rfind"), _find("count"), _index("index"), _index("rindex")


def stripend(y, c, right):
    """rstrip / lstrip, distributed over concatenations as far as their constant parts decide it."""
    n = "rstrip" if right else "lstrip"
    if isconst(y): return getattr(y, n)(c)
    if y.op == n and (len(y.args) < 2 or same(y.args[1], c)): return y
    if y.op == "concat" and (c is None or isconst(c)):
        ps = list(y.args)
        while ps:
            q = ps[-1 if right else 0]
            if not isconst(q): break
            q = getattr(q, n)(c)
            if q:
                ps[-1 if right else 0] = q
                return concat(*ps)
            del ps[-1 if right else 0]
        if not ps: return b"" if tyof(y) == "bytes" else ""
        if len(ps) == 1: return stripend(ps[0], c, right)
        q = ps[-2 if right else 1]
        if isconst(q) and getattr(q, n)(c) == q:
            e = stripend(ps[-1 if right else 0], c, right)
            return concat(*(ps[:-1] + [e] if right else [e] + ps[1:]))
        return mk(n, concat(*ps), c, ty=tyof(y))
    return mk(n, y, c, ty=tyof(y))


def _strip(n):
    def f(I, x, a, k):
        c = a[0] if a else None
        def one(y):
            if isconst(y) and (c is None or isconst(c)): return getattr(y, n)(c)
            if n != "strip": return stripend(y, c, n == "rstrip")
            if isinstance(y, T) and y.op == "concat": return stripend(stripend(y, c, True), c, False)
            return mk(n, y, c, ty=tyof(y))
        return I.pure(one, x)
    return f


s_str_strip, s_str_rstrip, s_str_lstrip = _strip("strip"), _strip("rstrip"), _strip("lstrip")


def _startswith(n):
    def f(I, x, a, k):
        def g(p):
            if isinstance(p, tuple):
                r = False
                for q in p: r = or_(r, g(q))
                return r
            if isinstance(p, (str, bytes)) and len(p) == 0: return True
            if isinstance(x, T) and x.op == "concat":
                q = x.args[0] if n == "startswith" else x.args[-1]
                if isconst(q) and isconst(p):
                    if len(q) >= len(p): return getattr(q, n)(p)
                    if not getattr(p, n)(q): return False
            if tyof(p) != tyof(x): return wrong(p, x)
            return batom(n, x, p)
        return I.pure(g, a[0])
    return f


s_str_startswith, s_str_endswith = _startswith("startswith"), _startswith("endswith")


def s_str_upper(I, x, a, k):
    if x.op == "hex": return mk("hex", x.args[0], "u", ty=x.ty)
    if x.op == "fmt" and x.args[0] and x.args[0][-1] == "x": return mk("fmt", x.args[0][:-1] + "X", x.args[1], ty="str")
    if x.op == "concat": return concat(*[p.upper() if isconst(p) else s_str_upper(I, p, a, k) for p in x.args])
    if x.op == "fmt" and isinstance(x.args[1], T) and x.args[1].ty == "int": return x
    return mk("upper", x, ty=x.ty)


def s_str_lower(I, x, a, k):
    if x.op == "hex": return mk("hex", x.args[0], "l", ty=x.ty)
    return mk("lower", x, ty=x.ty)


def s_str_zfill(I, x, a, k):
    n = a[0]
    if x.op == "fmt" and x.args[0] in ("x", "X", "") and isinstance(n, int) and rng_of(x.args[1])[0] >= 0:
        return mk("fmt", "0%d%s" % (n, x.args[0]), x.args[1], ty="str")
    return mk("zfill", x, n, ty="str")


def _just(nm):
    def f(I, x, a, k):
        if nm == "rjust" and len(a) > 1 and a[1] == "0": return s_str_zfill(I, x, a[:1], {})
        n = a[0] if a else None
        fill = a[1] if len(a) > 1 else b" " if tyof(x) == "bytes" else " "
        L = length(x)
        if isinstance(n, int) and isinstance(L, int) and isconst(fill):
            if L >= n: return x
            return concat(x, fill * (n - L)) if nm == "ljust" else concat(fill * (n - L), x)
        return mk(nm, x, *a, ty=tyof(x))
    return f


s_str_rjust, s_str_ljust = _just("rjust"), _just("ljust")


def s_str_replace(I, x, a, k): return I.pure(lambda p, q, *m: mk("replace", x, p, q, *m, ty=tyof(x)), *a)


def s_str_hex(I, x, a, k):
    if tyof(x) != "bytes": I.raise_if(True, Exc("AttributeError", "hex"))
    if a or k: return mk("hexsep", x, *a, ty="str")
    return mk("hex", x, "l", ty="str")


def ascii_safe(x):
    if isinstance(x, (str, bytes)): return x.isascii()
    if isinstance(x, T):
        if x.op == "concat": return all(ascii_safe(p) for p in x.args)
        if x.op == "fmt" and isinstance(x.args[1], T): return x.args[1].ty in ("int", "float", "bool")
        if x.op == "fmt": return True
        if x.op in ("hex", "strftime_gm", "strftime", "json.dumps", "iso"): return True
        if x.op == "slice": return ascii_safe(x.args[0])
    return False


def s_str_encode(I, x, a, k):
    enc = a[0] if a else k.get("encoding", "utf-8")
    err = a[1] if len(a) > 1 else k.get("errors", "strict")
    if tyof(x) != "str": I.raise_if(True, Exc("AttributeError", "encode"))
    e = str(enc).lower().replace("_", "-") if isinstance(enc, str) else "?"
    if e in ("utf-8", "utf8"): e = "ascii" if ascii_safe(x) else "utf-8"
    if e in ("ascii", "latin-1", "iso-8859-1", "latin1"):
        if not ascii_safe(x) and err == "strict":
            def parts(y):
                if isinstance(y, T) and y.op == "concat":
                    r = False
                    for p in y.args: r = or_(r, parts(p))
                    return r
                return False if ascii_safe(y) else batom("nonascii", y)
            I.raise_if(parts(x), Exc("UnicodeEncodeError"))
        return enc_term(x, "ascii" if err == "strict" else "ascii:" + str(err))
    return enc_term(x, e)


def enc_term(x, e):
    if isinstance(x, str): return x.encode()
    if x.op == "decode" and x.args[1] == e: return x.args[0]
    return mk("encode", x, e, ty="bytes")


def s_str_decode(I, x, a, k):
    enc = a[0] if a else k.get("encoding", "utf-8")
    err = a[1] if len(a) > 1 else k.get("errors", "strict")
    if tyof(x) != "bytes": I.raise_if(True, Exc("AttributeError", "decode"))
    if isinstance(x, bytes): 
        try: return x.decode(enc, err)
        except Exception as e: I.raise_if(True, Exc(type(e).__name__))
    if x.op == "hex": return mk("hex", x.args[0], x.args[1], ty="str")
    if x.op == "encode": return x.args[0]
    if err == "strict" and str(enc).lower() not in ("latin-1", "latin1", "iso-8859-1"): I.raise_if(batom("undecodable", x, str(enc).lower().replace("utf8", "utf-8")), Exc("UnicodeDecodeError"))
    return mk("decode", x, str(enc).lower(), ty="str")


def s_str_join(I, x, a, k):
    def f(o):
        if isinstance(o, T):
            if o.ty in ("list[str]", "list[any]", "unk", "ext"): return mk("join", x, o, ty=tyof(x))
            I.raise_if(True, Exc("TypeError"))
        seq = I.tolist(o)
        acc, started = ("" if tyof(x) == "str" else b""), False
        for g, v in seq:
            def add(acc=acc, v=v, started=started):
                def el(y): return y if tyof(y) == tyof(x) else ite(kind_is(y, "str"), strv(y), Exc("TypeError")) if tyof(y) == "any" else mk("joinel", y, ty=tyof(x)) if tyof(y) == "unk" else wrong(y)
                e = I.pure(lambda y: el(y), v)
                sep = ite(started, x, "" if tyof(x) == "str" else b"")
                return I.pure(lambda p, s, q: concat(p, s, q), acc, sep, e)
            acc = I.two(g, add, lambda acc=acc: acc)
            started = or_(started, g)
        return acc
    return I.each(a[0], f)


def s_str_format(I, x, a, k):
    if not isinstance(x, str): return mk("m:format", x, ty="str")
    out, n = "", 0
    for lit, field, spec, conv in string.Formatter().parse(x):
        out = I.cat(out, lit)
        if field is None: continue
        if field == "": v = a[n] if n < len(a) else I.raise_if(True, Exc("IndexError")); n += 1
        elif field.isdigit(): v = a[int(field)] if int(field) < len(a) else I.raise_if(True, Exc("IndexError"))
        elif field in k: v = k[field]
        else: raise Unknown("format field " + field)
        v = I.freeze(v)
        if conv == "r": v = I.tostr(v, True)
        if "{" in (spec or ""): raise Unknown("nested format spec")
        out = I.cat(out, I.pure(lambda y: fmt(y, spec or ""), v))
    return out


def s_int_to_bytes(I, x, a, k):
    n = a[0] if a else k.get("length", 1)
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    signed = k.get("signed", False)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if isinstance(x, int):
        try: return x.to_bytes(n, order, signed=signed)
        except OverflowError: I.raise_if(True, Exc("OverflowError"))
    I.raise_if(or_(ncmp("<", x, lo), ncmp(">", x, hi)), Exc("OverflowError"))
    ch = {1: "b" if signed else "B", 2: "h" if signed else "H", 4: "i" if signed else "I"}.get(n)
    if ch: return pack1(("<" if order == "little" or n == 1 else ">") + ch, x)
    t = mk("tobytes", x, n, order, ty="bytes")
    LEN[t] = n
    return t


s_bool_to_bytes = s_int_to_bytes


# ---------------------------------------------------------------- struct, binascii, codecs
def parse_fmt(f):
    end, native = "<", False
    if f and f[0] in "<>!=@":
        if f[0] in ">!": end = ">"
        native = f[0] == "@"
        f = f[1:]
    else: native = True
    out, off, i = [], 0, 0
    while i < len(f):
        c = f[i]
        if c.isspace(): i += 1; continue
        j = i
        while j < len(f) and f[j].isdigit(): j += 1
        n = int(f[i:j]) if j > i else None
        c = f[j]; i = j + 1
        if c == "x": off += 1 if n is None else n; continue
        if c in "sp":
            n = 1 if n is None else n
            out.append((c, off, n)); off += n
            continue
        if c not in SIZES: raise Unknown("struct format " + c)
        for _ in range(1 if n is None else n):
            if native: off += -off % SIZES[c]
            out.append((c, off, SIZES[c])); off += SIZES[c]
    return end, out, off


def pack1(ch, v):
    n = SIZES[ch[-1]]
    if n == 1: ch = "<" + ch[-1]
    if isinstance(v, T) and v.op == "u" and v.args[2] == ch and isinstance(v.args[1], int): return slice_(v.args[0], v.args[1], v.args[1] + n) if v.args[1] >= 0 else mkpack(ch, v, n)
    return mkpack(ch, v, n)


def mkpack(ch, v, n):
    t = mk("pack1", ch, v, n, ty="bytes")
    LEN[t] = n
    return t


@ext("struct.pack")
def st_pack(I, a, k):
    def go(f):
        if not isinstance(f, str):
            if isinstance(f, bytes): f = f.decode()
            else: raise Unknown("symbolic struct format")
        try: _struct.calcsize(f)
        except _struct.error: I.raise_if(True, Exc("struct.error"))
        end, fs, size = parse_fmt(f)
        if len(fs) != len(a) - 1: I.raise_if(True, Exc("struct.error"))
        out, pos = b"", 0
        for (c, off, n), v in zip(fs, a[1:]):
            if off > pos: out = I.pure(lambda p, q: concat(p, q), out, b"\0" * (off - pos), keep=True)
            def one(x, c=c, n=n):
                t = tyof(x)
                if c in "sp":
                    if t != "bytes": return Exc("struct.error")
                    if isinstance(x, bytes): return x[:n].ljust(n, b"\0")
                    L = length(x)
                    if isinstance(L, int): return concat(slice_(x, 0, n), b"\0" * (n - L)) if L < n else slice_(x, 0, n)
                    r = mk("fit", x, n, ty="bytes"); LEN[r] = n
                    return ite(gcompare("==", L, n), x, r) if not isinstance(L, G) else r
                if isconst(x):
                    try: return _struct.pack(end + c, x)
                    except _struct.error: return Exc("struct.error")
                    except OverflowError: return Exc("OverflowError")
                if c in "fd":
                    if t == "any": return ite(kind_is(x, "int", "float", "bool"), pack1(end + c, num(x)), Exc("struct.error"))
                    return pack1(end + c, b_float(x)) if t in NUM else Exc("struct.error")
                if c == "?": return pack1("<?", x)
                if t == "any":
                    bad = not_(kind_is(x, "int", "bool")); x = mk("num", x, ty="float"); return ite(bad, Exc("struct.error"), pack1(end + c, x))
                if t not in ("int", "bool"): return Exc("struct.error")
                lo, hi = RNG[c]
                return ite(or_(ncmp("<", x, lo), ncmp(">", x, hi)), Exc("struct.error"), pack1(end + c, x))
            w = choice(I.pure(one, v), 64)
            out = I.pure(lambda p, q: concat(p, q), out, w, keep=True)
            pos = off + n
        if pos < size: out = I.pure(lambda p, q: concat(p, q), out, b"\0" * (size - pos), keep=True)
        return out
    return I.each(a[0], go)


@ext("struct.unpack", "struct.unpack_from")
def st_unpack(I, a, k): return do_unpack(I, a[0], a[1], None if len(a) < 3 else a[2])


def do_unpack(I, f0, data, off0=None, exact=True):
    def go(f):
        if isinstance(f, bytes): f = f.decode()
        if not isinstance(f, str):
            I.raise_if(I.pure(lambda d: batom("badunpack", f, d), data), Exc("struct.error"))
            return mk("unpack", f, data, ty="list[any]") if isinstance(f, T) else I.raise_if(True, Exc("TypeError"))
        try: _struct.calcsize(f)
        except _struct.error: I.raise_if(True, Exc("struct.error"))
        end, fs, size = parse_fmt(f)
        def one(d):
            if tyof(d) != "bytes": return wrong(d)
            L = len(d) if isinstance(d, bytes) else length(d)
            okc = gcompare("==", L, size) if off0 is None else gcompare(">=", L, size + off0)
            b = off0 or 0
            vals = tuple(slice_(d, b + o, b + o + n) if c in "sp" else u(d, b + o, c, end) for c, o, n in fs) if okc is not False else ()
            return ite(okc, vals, Exc("struct.error"))
        return I.pure(one, I_unref(I, data))
    return I.each(f0, go)


F["struct.unpack_from"] = lambda I, a, k: do_unpack(I, a[0], a[1], a[2] if len(a) > 2 else k.get("offset", 0))


@ext("struct.calcsize")
def st_calcsize(I, a, k):
    def f(x):
        if isinstance(x, (str, bytes)):
            try: return _struct.calcsize(x)
            except _struct.error: return Exc("struct.error")
        if isinstance(x, T) and x.ty == "str": return ite(batom("badformat", x), Exc("struct.error"), mk("calcsize", x, ty="int", rng=(0, math.inf)))
        if isinstance(x, T) and x.ty == "any":
            s = strv(x)
            return ite(kind_is(x, "str"), ite(batom("badformat", s), Exc("struct.error"), mk("calcsize", s, ty="int", rng=(0, math.inf))), Exc("TypeError"))
        return wrong(x)
    return I.pure(f, a[0])


@ext("binascii.crc_hqx")
def bi_crc(I, a, k):
    def f(d, i):
        if tyof(d) != "bytes": return wrong(d)
        if isinstance(d, bytes) and isinstance(i, int):
            import binascii
            return binascii.crc_hqx(d, i)
        return mk("crc", d, i, ty="int", rng=(0, 65535))
    return I.pure(f, I_unref(I, a[0]), a[1])


@ext("binascii.hexlify", "binascii.b2a_hex")
def bi_hexlify(I, a, k): return I.pure(lambda d: d.hex().encode() if isinstance(d, bytes) else mk("hex", d, "l", ty="bytes"), I_unref(I, a[0]))


@ext("binascii.unhexlify", "binascii.a2b_hex")
def bi_unhex(I, a, k): return I.pure(lambda x: unhex(x, "badhex", "binascii.Error"), I_unref(I, a[0]))


@ext("codecs.encode")
def c_encode(I, a, k):
    enc = a[1] if len(a) > 1 else k.get("encoding", "utf-8")
    if enc in ("hex", "hex_codec"): return bi_hexlify(I, a, k)
    return method(I, a[0], "encode", [enc], {})


@ext("codecs.decode")
def c_decode(I, a, k):
    enc = a[1] if len(a) > 1 else k.get("encoding", "utf-8")
    if enc in ("hex", "hex_codec"): return bi_unhex(I, a, k)
    return method(I, a[0], "decode", [enc], {})


# ---------------------------------------------------------------- time
def fresh_now(I, utc):
    return mk("now", "utc" if utc else "local", ty="datetime")


@ext("datetime.datetime.now")
def dt_now(I, a, k):
    tz = a[0] if a else k.get("tz")
    return fresh_now(I, isinstance(tz, Ext) and tz.name in ("datetime.timezone.utc", "datetime.UTC", "dateutil.tz.UTC"))


@ext("datetime.datetime.utcnow")
def dt_utcnow(I, a, k): return fresh_now(I, True)


@ext("datetime.datetime.utcfromtimestamp", "datetime.datetime.fromtimestamp")
def dt_fromts(I, a, k): return I.pure(lambda x: mk("fromts", x, ty="datetime"), a[0])


@ext("datetime.timedelta")
def dt_td(I, a, k):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    mult = {"days": 86400, "seconds": 1, "microseconds": 1e-6, "milliseconds": 1e-3, "minutes": 60, "hours": 3600, "weeks": 604800}
    d = dict(zip(names, a)); d.update(k)
    s = 0
    for n, v in d.items():
        v = I.pure(lambda x: x if tyof(x) in NUM else ite(kind_is(x, "int", "float", "bool"), num(x), Exc("TypeError")) if tyof(x) == "any" else Exc("TypeError"), v)
        s = I.binop("+", s, I.binop("*", v, mult[n]))
    return I.pure(lambda x: mk("td", x, ty="timedelta"), s)


@ext("datetime.datetime.strptime")
def dt_strptime(I, a, k):
    def f(s, m):
        if isinstance(s, str) and isinstance(m, str):
            import datetime
            try: datetime.datetime.strptime(s, m)
            except ValueError: return Exc("ValueError")
            return mk("strptime", s, m, ty="datetime")
        if tyof(s) == "any": return ite(kind_is(s, "str"), f(strv(s), m), Exc("TypeError"))
        if tyof(s) != "str": return wrong(s)
        return ite(batom("badtime", s, m), Exc("ValueError"), mk("strptime", s, m, ty="datetime"))
    return I.pure(f, a[0], a[1])


@ext("time.strptime")
def t_strptime(I, a, k): return dt_strptime(I, a, k)


@ext("datetime.datetime.combine")
def dt_combine(I, a, k):
    return I.pure(lambda x, y: mk("combine", x, y, ty="datetime"), a[0], a[1])


@ext("datetime.datetime.fromisoformat")
def dt_iso(I, a, k): return I.pure(lambda s: ite(batom("badiso", s), Exc("ValueError"), mk("parse", s, None, ty="datetime")), a[0])


@ext("datetime.datetime")
def dt_ctor(I, a, k): return I.pure(lambda *xs: mk("datetime", *xs, ty="datetime"), *a)


@ext("dateutil.parser.parse")
def du_parse(I, a, k):
    d = k.get("default", a[1] if len(a) > 1 else None)
    def f(s, dd):
        if tyof(s) == "any": return ite(kind_is(s, "str"), f(strv(s), dd), Exc("TypeError"))
        if tyof(s) not in ("str",): return wrong(s)
        return ite(batom("badparse", s), Exc("ValueError"), mk("parse", s, dd, ty="datetime"))
    return I.pure(f, a[0], d)


FIELDS = {"hour": (0, 23), "minute": (0, 59), "second": (0, 59), "year": (1, 9999), "month": (1, 12), "day": (1, 31), "microsecond": (0, 999999)}


def dt_secs(x):
    """Second of the day of x (a value, possibly above 86399 or negative), or None."""
    if not isinstance(x, T): return None
    if x.op == "dtreplace":
        d = dict(x.args[1])
        if all(isinstance(d.get(q), (int, T)) and tyof(d[q]) == "int" for q in ("hour", "minute", "second")):
            return ops.arith("+", ops.arith("+", ops.arith("*", d["hour"], 3600), ops.arith("*", d["minute"], 60)), d["second"])
    if x.op == "dtadd" and tyof(x.args[1]) == "int":
        b = dt_secs(x.args[0])
        if b is not None: return ops.arith("+", b, x.args[1])
    if x.op == "fromts" and tyof(x.args[0]) == "int": return x.args[0]
    return None


def strftime(x, f):
    """Formats made of hours, minutes and seconds only are the concatenation of those fields."""
    if isinstance(f, str) and isinstance(x, T):
        g = f.replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
        if all(c in "HMS" for c in re.findall(r"%(.)", g)) and not g.endswith("%"):
            out = ""
            for p in re.split(r"(%[HMS])", g):
                v = p if not p.startswith("%") else fmt(dt_field(x, {"H": "hour", "M": "minute", "S": "second"}[p[1]]), "02d")
                out = concat(out, v)
            return out
    return mk("strftime", x, f, ty="str")


def dt_field(x, n):
    if n in ("hour", "minute", "second"):
        s = dt_secs(x)
        if s is not None:
            if n == "hour": return ops.arith("%", ops.arith("//", s, 3600), 24)
            if n == "minute": return ops.arith("%", ops.arith("//", s, 60), 60)
            return ops.arith("%", s, 60)
    if x.op == "dtreplace":
        for kk, v in x.args[1]:
            if kk == n: return v
        return dt_field(x.args[0], n)
    if x.op == "parse" and n in ("hour", "minute", "second"): return mk("field", x.args[0], n, ty="int", rng=FIELDS[n])
    if x.op == "strptime" and n in ("hour", "minute", "second"):
        if isinstance(x.args[0], str) and isinstance(x.args[1], str):
            import datetime
            return getattr(datetime.datetime.strptime(x.args[0], x.args[1]), n)
        if x.args[1] in ("%H:%M:%S", "%T"): return mk("field", x.args[0], n, ty="int", rng=FIELDS[n])
    if x.op == "combine" and n in ("hour", "minute", "second") and isinstance(x.args[1], T) and x.args[1].op == "dtpart": return dt_field(x.args[1].args[0], n)
    if x.op == "dtpart": return dt_field(x.args[0], n)
    if x.op == "dtadd":
        s = x.args[1]
        if isinstance(s, (int, float)) and s % 86400 == 0 and n in ("hour", "minute", "second", "microsecond"): return dt_field(x.args[0], n)
    return mk("field", x, n, ty="int", rng=FIELDS[n])


def val_attr(I, x, name):
    t = tyof(x)
    if t == "datetime":
        if name in FIELDS: return dt_field(x, name)
        if name == "tzinfo": return mk("tzinfo", x, ty="obj")
        return Meth(name, x)
    if t == "timedelta":
        if name in ("days", "seconds", "microseconds"): return mk("tdfield", x, name, ty="int")
        return Meth(name, x)
    if t in ("ext", "unk", "obj"):
        h = I.attrs.get("attr:%s.%s" % (x.op if x.op != "sym" else x.args[0], name))
        if h is not None: return h(I, x) if callable(h) else h
        if I.ext.get("method:%s.%s" % (x.op if x.op != "sym" else x.args[0], name)): return Meth(name, x)
        ty, rng = ATTRTY.get(name, ("unk", None))
        return mk("attr", x, name, ty=ty, rng=rng) if ty != "unk" else Meth(name, x) if name in EXTMETH else mk("attr", x, name, ty="unk")
    if t in ("int", "float", "bool") and name in ("real", "imag"): return x
    return Meth(name, x)


ATTRTY = {"status_code": ("int", (100, 599)), "text": ("str", None), "ok": ("bool", None), "content": ("bytes", None)}
EXTMETH = ()


def dt_method(I, x, name, a, k):
    if tyof(x) == "timedelta":
        if name == "total_seconds": return secs(x)
        I.raise_if(True, Exc("AttributeError", name))
    if name == "strftime": return I.pure(lambda f: strftime(x, f), a[0])
    if name == "isoformat": return mk("iso", x, *a, ty="str")
    if name == "replace":
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
        d = dict(zip(names, a)); d.update(k)
        ks = sorted(d)
        return I.pure(lambda *vs: mk("dtreplace", x, tuple(zip(ks, vs)), ty="datetime"), *[d[q] if not isinstance(d[q], Ext) else d[q].name for q in ks])
    if name in ("date", "time", "timetz"): return mk("dtpart", x, name, ty="datetime")
    if name == "astimezone": return x
    if name == "timestamp": return mk("timestamp", x, ty="float")
    if name in ("weekday", "toordinal", "timetuple", "utcoffset"): return mk("m:" + name, x, ty="int")
    I.raise_if(True, Exc("AttributeError", name))


@ext("time.time", "time.monotonic")
def t_time(I, a, k):
    return mk("time", I.seq("time"), ty="float", rng=(0.0, 4e9))


@ext("time.sleep")
def t_sleep(I, a, k): return None


@ext("time.gmtime")
def t_gmtime(I, a, k): return I.pure(lambda x: mk("gmtime", x, ty="obj"), a[0]) if a else mk("gmtime", fresh_now(I, True), ty="obj")


@ext("time.strftime")
def t_strftime(I, a, k):
    return I.pure(lambda f, t: (strftime(mk("fromts", t.args[0], ty="datetime"), f) if tyof(t.args[0]) == "int" else mk("strftime_gm", f, t.args[0], ty="str")) if isinstance(t, T) and t.op == "gmtime" else mk("strftime", t, f, ty="str"), a[0], a[1])


# ---------------------------------------------------------------- json, misc
@ext("json.dumps")
def j_dumps(I, a, k):
    v = I.freeze(a[0])
    bad = False
    def scan(x, c, d=0):
        nonlocal bad
        for cc, y in leaves(x):
            c2 = and_(c, cc)
            if c2 is False: continue
            if isinstance(y, tuple):
                if y and y[0] == "dict":
                    for kk, vv in y[2:]: scan(vv, and_(c2, present(vv)), d + 1)
                elif y and y[0] in ("list", "deque", "iter", "set"):
                    if y[0] != "list": bad = or_(bad, c2)
                    for g, vv in y[1:]: scan(vv, and_(c2, g), d + 1)
                else:
                    for vv in y: scan(vv, c2, d + 1)
            elif tyof(y) in ("bytes", "datetime", "timedelta") or isinstance(y, (Ref, Ext, Fn, Exc)): bad = or_(bad, c2)
    scan(v, True)
    if bad is not False: I.raise_if(bad, Exc("TypeError"))
    return I.pure(lambda y: mk("json.dumps", y, ty="str"), v)


@ext("json.loads")
def j_loads(I, a, k):
    def f(s):
        t = tyof(s)
        if t in ("str", "bytes"):
            if isinstance(s, T) and s.op == "json.dumps": pass
            return ite(batom("badjson", s), Exc("json.JSONDecodeError"), mk("json", s, ty="any"))
        if t == "any": return ite(kind_is(s, "str"), f(strv(s)), Exc("TypeError"))
        if t in ("unk", "ext"): return ite(batom("badjson", s), Exc("json.JSONDecodeError"), mk("json", s, ty="any"))
        return wrong(s)
    return I.pure(f, I_unref(I, a[0]))


@ext("json.load")
def j_load(I, a, k):
    s = method(I, a[0], "read", [], {})
    return j_loads(I, [s], k)


@ext("copy.deepcopy", "copy.copy")
def c_deepcopy(I, a, k):
    memo = {}
    def cp(v):
        def f(x):
            if isinstance(x, Ref):
                if x in memo: return memo[x]
                r = I.rec(x)
                if r.kind in ("mod", "cls"): return x
                n = r.copy()
                ref = I.alloc(n)
                memo[x] = ref
                if n.m is not None: n.m = {kk: (k2, cp(v2)) for kk, (k2, v2) in n.m.items()}
                if n.items is not None: n.items = [(g, cp(v2)) for g, v2 in n.items]
                return ref
            if isinstance(x, tuple): return tuple(cp(y) for y in x)
            return x
        return gmap1(f, v)
    return cp(a[0])


def _shallow(I, a, k):
    def f(x): return I.alloc(I.rec(x).copy()) if isinstance(x, Ref) and I.rec(x).kind not in ("mod", "cls") else x
    return I.each(a[0], f)


F["copy.copy"] = _shallow


@ext("traceback.format_exc", "traceback.format_stack")
def tb(I, a, k): return mk("sym", "traceback", ty="str")


@ext("traceback.print_exc")
def tbp(I, a, k): return None


@ext("sys.exit", "exit", "quit", "os._exit")
def sys_exit(I, a, k): I.raise_if(True, Exc("SystemExit"))


def _path(n):
    def f(I, a, k): return I.pure(lambda *v: mk("path." + n, *v, ty="str"), *a)
    F["os.path." + n] = f


for _n in ("join", "dirname", "abspath", "basename", "expanduser", "realpath", "normpath"): _path(_n)
F["os.path.exists"] = F["os.path.isfile"] = lambda I, a, k: batom("exists", I.freeze(a[0]) if not isinstance(a[0], G) else "path")
F["asn1tools.compile_files"] = lambda I, a, k: Ext("ASN1")
F["asn1tools.compile_string"] = lambda I, a, k: Ext("ASN1")
F["gzip.compress"] = lambda I, a, k: I.pure(lambda x: mk("gzip", x, ty="bytes"), a[0])
F["zlib.compress"] = lambda I, a, k: I.pure(lambda x: mk("zlib", x, ty="bytes"), a[0])
F["email.utils.formatdate"] = lambda I, a, k: I.unk("date", "str")
F["locale.setlocale"] = lambda I, a, k: None
F["enum.Enum"] = lambda I, a, k: I.unk("enum")
F["itertools.chain"] = lambda I, a, k: I.alloc(Rec("iter", items=[p for x in a for p in I.tolist(x)]))
F["itertools.count"] = lambda I, a, k: mk("range", a[0] if a else 0, sym("inf", "int", (0, math.inf)), ty="range")


@ext("itertools.islice")
def it_islice(I, a, k):
    l = F["list"](I, [a[0]], {})
    return I.getslice(l, Slice(None if len(a) == 2 else a[1], a[1] if len(a) == 2 else a[2], None))


@ext("itertools.product")
def it_product(I, a, k):
    raise Unknown("itertools.product")


@ext("functools.partial")
def ft_partial(I, a, k):
    return I.alloc(Rec("partial", items=[(True, x) for x in a], m={n: (n, v) for n, v in k.items()}))


@ext("functools.reduce")
def ft_reduce(I, a, k):
    seq = I.tolist(a[1])
    acc = a[2] if len(a) > 2 else ABSENT
    for g, v in seq:
        if acc is ABSENT: acc = v; continue
        acc = I.two(g, lambda acc=acc: I.call(a[0], [acc, v], {}), lambda acc=acc: acc)
    return acc


@ext("operator.itemgetter")
def op_ig(I, a, k): return unknown_call(I, "operator.itemgetter", a, k)


# ---------------------------------------------------------------- files, sockets, http, threads
@ext("open", "io.open", "codecs.open")
def f_open(I, a, k):
    I.effect("open", a[0], a[1] if len(a) > 1 else k.get("mode", "r"))
    I.raise_if(I.freshatom("open fails"), Exc("OSError", "open"))
    return mk("file", I.seq("file"), I.freeze(a[0]) if not isinstance(a[0], G) else "?", ty="ext")


def may(I, what, exc="OSError"):
    I.raise_if(I.freshatom(what + " fails"), Exc(exc, what))


def fm(n):
    def d(f): F["method:file." + n] = f; return f
    return d


@fm("read")
def file_read(I, x, a, k):
    may(I, "read", "*ext")
    return mk("filetext", x, I.seq("filetext"), ty="str")


@fm("readlines")
def file_readlines(I, x, a, k):
    may(I, "read", "*ext")
    return mk("filelines", x, ty="list[str]")


@fm("write")
def file_write(I, x, a, k):
    I.effect("file.write", x, a[0])
    may(I, "write")
    return I.unk("n", "int")


@fm("flush")
def file_flush(I, x, a, k):
    may(I, "flush"); return None


@fm("close")
def file_close(I, x, a, k):
    I.effect("file.close", x); return None


@ext("socket.socket")
def so_socket(I, a, k):
    may(I, "socket")
    s = mk("socket", I.seq("socket"), ty="ext")
    I.effect("socket.open", s)
    return s


def sm(n):
    def d(f): F["method:socket." + n] = f; return f
    return d


@sm("sendto")
def so_sendto(I, x, a, k):
    I.effect("sendto", x, a[0], a[-1])
    c = I.freshatom("sendto fails")
    I.raise_if(c, Exc("OSError", "sendto"))
    I.effect("sent", x, a[0], a[-1])
    return I.unk("n", "int")


@sm("close")
def so_close(I, x, a, k): I.effect("socket.close", x)


for _n in ("setsockopt", "bind", "connect", "settimeout", "setblocking"):
    def _mk(n):
        def f(I, x, a, k):
            I.effect("socket." + n, x, tuple(a))
            if n not in ("settimeout", "setblocking"): may(I, n)
        F["method:socket." + n] = f
    _mk(_n)


@sm("send")
def so_send(I, x, a, k): return so_sendto(I, x, a, k)


@ext("requests.get", "requests.put", "requests.post", "requests.request")
def rq(I, a, k): return request(I, "?", a, k)


def request(I, verb, a, k):
    n = I.seq('request')
    I.effect("http", verb, n, tuple(a), tuple((q, v) for q, v in sorted(k.items())))
    I.raise_if(cond(mk("sym", "request %d fails" % n, ty="bool")), Exc("*ext", "request"))
    return mk("response", n, ty="ext")


for _v in ("get", "put", "post", "delete", "patch"):
    F["requests." + _v] = (lambda v: lambda I, a, k: request(I, v, a, k))(_v)


@ext("method:response.json")
def rq_json(I, x, a, k):
    may(I, "response.json", "json.JSONDecodeError")
    return mk("json", x, ty="any")


@ext("method:response.raise_for_status")
def rq_rfs(I, x, a, k):
    sc = mk("attr", x, "status_code", ty="int", rng=(100, 599))
    I.raise_if(and_(ncmp(">=", sc, 400), ncmp("<", sc, 600)), Exc("requests.RequestException"))


@ext("method:response.close")
def rq_close(I, x, a, k): return None


@ext("threading.Thread")
def th(I, a, k):
    t = mk("thread", I.seq("thread"), k.get("target", a[1] if len(a) > 1 else None), ty="ext")
    return t


F["method:thread.start"] = lambda I, x, a, k: I.effect("thread.start", x)
F["method:thread.join"] = lambda I, x, a, k: I.effect("thread.join", x)
F["method:thread.is_alive"] = lambda I, x, a, k: I.freshatom("is_alive")


@ext("queue.Queue", "queue.SimpleQueue")
def q_new(I, a, k):
    return mk("queue", I.seq("queue"), ty="ext")


@ext("method:queue.put", "method:queue.put_nowait")
def q_put(I, x, a, k): I.effect("queue.put", x, a[0])


@ext("method:queue.qsize")
def q_size(I, x, a, k):
    return mk("qsize", x, I.seq("qsize"), ty="int", rng=(0, math.inf))


@ext("method:queue.empty")
def q_empty(I, x, a, k): return not_(ncmp(">", q_size(I, x, a, k), 0))


@ext("method:queue.get", "method:queue.get_nowait")
def q_get(I, x, a, k):
    may(I, "queue.get", "queue.Empty")
    v = mk("qitem", x, I.seq("qitem"), ty="any")
    I.effect("queue.get", x, v)
    return v


@ext("threading.Lock", "threading.RLock", "threading.Event")
def th_lock(I, a, k): return mk("lock", ty="ext")


for _n in ("acquire", "release", "set", "clear", "wait"): F["method:lock." + _n] = lambda I, x, a, k: True


# ---------------------------------------------------------------- context managers
def enter(I, x):
    if isinstance(x, T) and x.op == "response": return x
    return x


def leave(I, x, exc):
    if isinstance(x, T):
        if x.op == "file": I.effect("file.close", x)
        if x.op == "socket": I.effect("socket.close", x)
        if x.op == "suppress": return True
    return False


# ---------------------------------------------------------------- argparse
@ext("argparse.ArgumentParser")
def ap(I, a, k):
    return I.alloc(Rec("argparser", m={}, items=[]))


def m_argparser_add_argument(I, x, a, k):
    names = [n for n in a if isinstance(n, str)]
    long = [n for n in names if n.startswith("--")]
    dest = k.get("dest") or (long[0][2:] if long else names[0].lstrip("-")).replace("-", "_")
    act = k.get("action")
    d = k.get("default")
    ty = k.get("type")
    if act == "store_true" or act == "store_false": v = cond(sym("args." + dest, "bool"))
    elif act == "count": v = sym("args." + dest, "int", (0, 10))
    else:
        tn = ty.name if isinstance(ty, Ext) else "str"
        if "choices" in k:
            ch = [v2 for g, v2 in I.tolist(k["choices"])]
            t = ch[0]
            for c in ch[1:]: t = ite(batom("eq", sym("args." + dest, "str"), c), c, t)
        else: t = sym("args." + dest, tn if tn in ("int", "float", "str") else "str", (-1e30, 1e30) if tn == "float" else None)
        v = t if d is None and names and not names[0].startswith("-") and k.get("nargs") is None else ite(cond(sym("args.%s given" % dest, "bool")), t, d)
    I.own(x).m[dest] = (dest, v)
    if not hasattr(I, "argdefaults"): I.argdefaults = {}
    I.argdefaults[dest] = k.get("default", {"store_true": False, "store_false": True}.get(act))
    return None


def m_argparser_parse_args(I, x, a, k):
    over = I.attrs.get("argparse", {})
    m = dict(I.rec(x).m)
    for n, v in over.items():
        if n in m: m[n] = (n, v)
    if I.attrs.get("argparse.defaults"):
        for n, d in getattr(I, "argdefaults", {}).items():
            if n not in over: m[n] = (n, d)
    return I.alloc(Rec("obj", m=m))


def m_argparser_add_argument_group(I, x, a, k): return x
def m_argparser_add_mutually_exclusive_group(I, x, a, k): return x
def m_argparser_print_help(I, x, a, k): return None
def m_argparser_set_defaults(I, x, a, k):
    for n, v in k.items(): I.own(x).m[n] = (n, v)


@ext("argparse.ArgumentDefaultsHelpFormatter")
def apf(I, a, k): return I.unk("fmt")


@ext("contextlib.suppress")
def cl_suppress(I, a, k): raise Unknown("contextlib.suppress")


# ---------------------------------------------------------------- cffi binding of libhorus
@ext("_horus_api_cffi.ffi.new")
def ffi_new(I, a, k):
    """char[] buffers hold bytes; other arrays and structures are records."""
    ct = a[0]
    if ct in ("char[]", "unsigned char[]", "uint8_t[]", "const char[]"):
        init = a[1] if len(a) > 1 else 0
        v = I.pure(lambda x: concat(x, b"\0") if tyof(x) == "bytes" else bytes(x) if isinstance(x, int) else mk("repeat", b"\0", x, ty="bytes"), I_unref(I, init))
        return I.alloc(Rec("bytearray", items=[(True, v)]))
    h = I.ext.get("cffi.new")
    if h: return h(I, a, k)
    return unknown_call(I, "_horus_api_cffi.ffi.new", a, k)


@ext("_horus_api_cffi.ffi.buffer")
def ffi_buffer(I, a, k):
    if len(a) > 1: return I.pure(lambda n: I.slice_val(I_unref(I, a[0]), Slice(0, n, None)), a[1])
    return a[0]


@ext("_horus_api_cffi.lib.horus_l2_init", "_horus_api_cffi.lib.horus_l2_gen_table")
def l2_init(I, a, k): I.effect("l2_init"); return None


@ext("_horus_api_cffi.lib.horus_l2_get_num_tx_data_bytes")
def l2_num(I, a, k): return I.pure(lambda n: 2 + n + (((n * 8 + 11) // 12) * 11 + 7) // 8 if isinstance(n, int) else mk("l2_num", n, ty="int", rng=(2, 10000)), a[0])


@ext("_horus_api_cffi.lib.horus_l2_encode_tx_packet")
def l2_enc(I, a, k):
    src = I.pure(lambda v, n: slice_(v, 0, n), I_unref(I, a[1]), a[2])
    I.own(a[0]).items = [(True, I.pure(lambda s: mk("l2_encode", s, ty="bytes"), src))]
    return l2_num(I, [a[2]], {})


@ext("_horus_api_cffi.lib.horus_l2_decode_rx_packet")
def l2_dec(I, a, k):
    I.own(a[0]).items = [(True, I.pure(lambda s, n: mk("l2_decode", s, n, ty="bytes"), I_unref(I, a[1]), a[2]))]
    return None
