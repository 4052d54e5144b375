"""Leaf operations of pyabs: arithmetic in linear normal form, comparisons as canonical atoms, strings, bytes."""
import math, operator
from vals import *

LEN = {}            # bytes/str term -> known constant length


class Unknown(Exception):
    """A construct the analysis has no rule for."""


NUM = ("int", "float", "bool")


def tyof(v):
    if isinstance(v, T): return v.ty
    if isinstance(v, bool): return "bool"
    if isinstance(v, int): return "int"
    if isinstance(v, float): return "float"
    if isinstance(v, str): return "str"
    if isinstance(v, bytes): return "bytes"
    if v is None: return "none"
    if isinstance(v, tuple): return "tuple"
    if isinstance(v, Exc): return "exc"
    return "obj"


JT = ("dict", "list", "str", "int", "float", "bool", "none")
# kinds an `any` term may have: bytes, tuple and other objects only arise for "obj" terms


def jt(x):
    return mk("jt", x, ty="str")


def kind_is(x, *kinds):
    """Condition: leaf x has one of the given type names."""
    t = tyof(x)
    if isinstance(x, T) and t == "any":
        r = False
        for k in kinds:
            if k in JT: r = or_(r, cond(mk("eq", jt(x), k, ty="bool")))
        if set(JT) <= set(kinds): return True
        return r
    if t == "dictT": t = "dict"
    if t in ("list[str]", "list[any]"): t = "list"
    return t in kinds


# ------------------------------------------------------------- linear forms
def lin(t):
    """({term: coef}, const) of a numeric leaf."""
    if isinstance(t, T):
        if t.op == "lin": return dict(t.args[0]), t.args[1]
        return {t: 1}, 0
    return {}, t


def rng_of(t):
    if isinstance(t, bool): return (int(t), int(t))
    if isinstance(t, (int, float)): return (t, t)
    if isinstance(t, T) and t.rng: return t.rng
    if isinstance(t, T) and t.ty == "bool": return (0, 1)
    return (-math.inf, math.inf)


def mul0(a, b): return 0 if a == 0 or b == 0 else a * b


def snap(c):
    if isinstance(c, float) and c == c and abs(c) != math.inf:
        return float("%.12g" % c)
    return c


def joinbytes(d):
    """256 * byte[i+1] + byte[i] is the 16-bit field at i (and so on for 32 bits)."""
    fs = [t for t in d if isinstance(t, T) and t.op == "u" and t.ty == "int" and t.args[2] in ("<B", "<H", ">H") and isinstance(t.args[1], int) and isinstance(d[t], int)]
    if len(fs) < 2: return d
    by = {(t.args[0], t.args[1], t.args[2]): t for t in fs}
    for t in fs:
        x, off, ch = t.args
        n = SIZES[ch[-1]]
        for o in ("<", ">"):
            if n > 1 and ch[0] != o: continue
            q = by.get((x, off + n, ch))
            if q is None: continue
            k, k2 = d[t], d[q]
            if k2 == (k << (8 * n)) if o == "<" else k == (k2 << (8 * n)):
                e = dict(d)
                del e[t], e[q]
                w = mk("u", x, off, o + "HI"[n - 1], ty="int", rng=RNG["HI"[n - 1]])
                e[w] = e.get(w, 0) + (k if o == "<" else k2)
                return joinbytes(e)
    return d


def mklin(d, c, ty):
    d = {t: k for t, k in d.items() if k != 0}
    if ty == "int" and len(d) > 1: d = joinbytes(d)
    if not d: return float(c) if ty == "float" else c
    if len(d) == 1 and c == 0:
        (t, k), = d.items()
        if k == 1 and t.ty == ty: return t
    lo = hi = c
    for t, k in d.items():
        a, b = rng_of(t)
        a, b = mul0(a, k), mul0(b, k)
        if k < 0: a, b = b, a
        lo, hi = lo + a, hi + b
    if ty == "float":
        d = {t: snap(float(k)) for t, k in d.items()}
        c = snap(float(c))
    items = tuple(sorted(d.items(), key=lambda p: p[0].id))
    return mk("lin", items, c, ty=ty, rng=(lo, hi))


def numty(a, b): return "float" if "float" in (tyof(a), tyof(b)) else "int"


PYOP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
        "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor}


def isconst(v): return v is None or isinstance(v, (bool, int, float, str, bytes, Exc)) or isinstance(v, tuple) and all(isconst(x) for x in v)


FIRM = ("int", "float", "bool", "str", "bytes", "none", "datetime", "timedelta")


def wrong(*xs):
    """TypeError for operands whose types are known for certain; otherwise the analysis does not know the operation."""
    for x in xs:
        if isinstance(x, Ref) or isconst(x) or isinstance(x, tuple): continue
        if not (isinstance(x, T) and x.ty in FIRM): raise Unknown("operation on %s" % (x.ty if isinstance(x, T) else type(x).__name__))
    return Exc("TypeError")


def arith(op, a, b):
    """Binary operator on two leaves; result leaf or gated value, Exc on a type error."""
    if isconst(a) and isconst(b) and not isinstance(a, Exc) and not isinstance(b, Exc):
        if isinstance(a, str) and op == "%": return pctfmt(a, b)
        try: return PYOP[op](a, b)
        except Exception as e: return Exc(type(e).__name__)
    ta, tb = tyof(a), tyof(b)
    if op == "+" and ta in ("str", "bytes") and ta == tb: return concat(a, b)
    if op == "+" and isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if op == "%" and ta == "str": return pctfmt(a, b)
    if op == "*" and ta in ("str", "bytes") and tb in ("int", "bool"): return mk("repeat", a, b, ty=ta)
    if op == "*" and tb in ("str", "bytes") and ta in ("int", "bool"): return mk("repeat", b, a, ty=tb)
    if op == "*" and isinstance(a, tuple) and isinstance(b, int): return a * b
    if op == "-" and ta == "datetime" and tb == "datetime": return mk("dtdiff", a, b, ty="timedelta")
    if ta == "datetime" and tb == "timedelta" and op in "+-": return mk("dtadd", a, arith("*", secs(b), 1 if op == "+" else -1), ty="datetime")
    if tb == "datetime" and ta == "timedelta" and op == "+": return mk("dtadd", b, secs(a), ty="datetime")
    if ta == "timedelta" and tb == "timedelta" and op in "+-": return mk("td", arith(op, secs(a), secs(b)), ty="timedelta")
    if "any" in (ta, tb):
        bad = False
        for x, t in ((a, ta), (b, tb)):
            if t == "any": bad = or_(bad, not_(kind_is(x, "int", "float", "bool")))
            elif t not in NUM: bad = True
        if op == "+":      # str + str and list + list are fine too
            both = True
            for x, t in ((a, ta), (b, tb)): both = and_(both, kind_is(x, "str"))
            bad = and_(bad, not_(both))
        if op == "%" and ta == "any": bad = True if bad is True else bad
        r = arithnum(op, num(a) if ta == "any" else a, num(b) if tb == "any" else b) if ta in NUM + ("any",) and tb in NUM + ("any",) else concat(a, b) if op == "+" else ABSENT
        return ite(bad, Exc("TypeError"), r)
    if ta in NUM and tb in NUM: return arithnum(op, a, b)
    if ta == "unk" or tb == "unk": return mk("unkop", op, a, b, ty="unk")
    return wrong(a, b)


def num(a):
    """Numeric view of an untyped value."""
    if isinstance(a, T) and a.ty == "any": return mk("num", a, ty="float")
    return a


def divnorm(op, a, b):
    """Simpler form of a // b and a % b for an integer term and a positive constant (None: no rule applies)."""
    if b == 1: return a if op == "//" else 0
    if a.op == "u" and a.args[2] in ("<H", ">H") and isinstance(a.args[1], int) and b in (256, 65536):
        x, off, ch = a.args
        if b == 65536: return 0 if op == "//" else a
        return u(x, off + ((ch[0] == "<") == (op == "//")), "B", "<")
    if rng_of(a)[0] >= 0 and rng_of(a)[1] < b: return 0 if op == "//" else a
    if a.op in ("//", "%") and isinstance(a.args[1], int) and a.args[1] > 0:
        e, m = a.args
        if a.op == "//" and op == "//": return arithnum("//", e, m * b)
        if a.op == "%" and m % b == 0: return arithnum("%", e, b) if op == "%" else arithnum("%", arithnum("//", e, b), m // b)
    d, c = lin(a)
    if not all(isinstance(k, int) for k in list(d.values()) + [c]): return None
    if op == "//":      # whole multiples of b leave the quotient
        q = {t: k // b for t, k in d.items() if k % b == 0}
        if q and len(q) < len(d) or c // b:
            rest = mklin({t: k for t, k in d.items() if t not in q}, c % b, "int")
            return arithnum("+", mklin(q, c // b, "int"), arithnum("//", rest, b)) if q or c // b else None
        if q and not c: return mklin(q, 0, "int")
        if q: return arithnum("+", mklin(q, 0, "int"), c // b)
    else:
        r = {t: k % b for t, k in d.items()}
        if r != d or c % b != c: return arithnum("%", mklin(r, c % b, "int"), b)
    g = math.gcd(b, c, *d.values())
    if g > 1:
        e = mklin({t: k // g for t, k in d.items()}, c // g, "int")
        return arithnum("//", e, b // g) if op == "//" else arithnum("*", arithnum("%", e, b // g), g)
    return None


def remainders(d, c):
    """e - b * (e // b) is e % b."""
    for t in list(d):
        if not (isinstance(t, T) and t.op == "//" and t.ty == "int" and isinstance(t.args[1], int) and t.args[1] > 0): continue
        e, b = t.args
        k = d.get(t, 0)
        if not isinstance(k, int) or k == 0 or k % b: continue
        f = -k // b
        de, ce = lin(e)
        if not all(isinstance(v, int) and d.get(x) == f * v for x, v in de.items()): continue
        for x in de: del d[x]
        del d[t]
        m = arithnum("%", e, b)
        dm, cm = lin(m)
        for x, v in dm.items(): d[x] = d.get(x, 0) + f * v
        c = c - f * ce + f * cm
        return remainders(d, c)
    return d, c


def arithnum(op, a, b):
    ty = numty(a, b)
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if op in "+-" and len(op) == 1:
        da, ca = lin(a); db, cb = lin(b)
        s = 1 if op == "+" else -1
        d = dict(da)
        for t, k in db.items(): d[t] = d.get(t, 0) + s * k
        c = ca + s * cb
        if ty == "int": d, c = remainders(d, c)
        return mklin(d, c, ty)
    if op == "*":
        if isinstance(a, T) and isinstance(b, T):
            if a.id > b.id: a, b = b, a
            return mk("*", a, b, ty=ty)
        if not isinstance(a, T): a, b = b, a
        if isinstance(b, float) and (b != b or abs(b) == math.inf): return mk("*", a, b, ty=ty)
        d, c = lin(a)
        return mklin({t: k * b for t, k in d.items()}, c * b, ty)
    if op == "/":
        if not isinstance(b, T):
            if b == 0: return Exc("ZeroDivisionError")
            d, c = lin(a)
            return mklin({t: k / b for t, k in d.items()}, c / b, "float")
        r = mk("/", a, b, ty="float")
        return ite(compare("==", b, 0), Exc("ZeroDivisionError"), r)
    if op in ("//", "%"):
        if not isinstance(b, T):
            if b == 0: return Exc("ZeroDivisionError")
            if ty == "int" and isinstance(b, int) and b > 0 and isinstance(a, T) and a.ty == "int":
                r = divnorm(op, a, b)
                if r is not None: return r
            lo, hi = rng_of(a)
            if op == "%":
                if ty == "int" and b > 0 and lo >= 0 and hi < b: return a
                return mk("%", a, b, ty=ty, rng=(0, b - 1) if ty == "int" and b > 0 else None)
            rng = (lo // b, hi // b) if ty == "int" and b > 0 and lo > -math.inf and hi < math.inf else None
            return mk("//", a, b, ty=ty, rng=rng)
        return ite(compare("==", b, 0), Exc("ZeroDivisionError"), mk(op, a, b, ty=ty))
    if ty == "float" and op in ("<<", ">>", "&", "|", "^"): return Exc("TypeError")
    if op == "<<":
        if not isinstance(b, T) and 0 <= b < 64: return arithnum("*", a, 1 << b)
        return mk("<<", a, b, ty="int")
    if op == ">>":
        lo, hi = rng_of(a)
        if not isinstance(b, T):
            if b < 0: return Exc("ValueError")
            if isinstance(a, T) and b < 64: return arithnum("//", a, 1 << b)
            return mk(">>", a, b, ty="int", rng=(int(lo) >> b, int(hi) >> b) if lo > -math.inf and hi < math.inf else None)
        return mk(">>", a, b, ty="int")
    if op in ("&", "|", "^"):
        if not isinstance(a, T): a, b = b, a
        if isinstance(b, T) and a.id > b.id: a, b = b, a
        (la, ha), (lb, hb) = rng_of(a), rng_of(b)
        rng = None
        if op == "&" and isinstance(a, T) and isinstance(b, int):
            # a mask of adjacent bits selects a remainder of a quotient
            if b == 0: return 0
            k = (b & -b).bit_length() - 1
            m = b >> k
            if b > 0 and m & (m + 1) == 0:
                return arithnum("*", arithnum("%", arithnum("//", a, 1 << k) if k else a, m + 1), 1 << k)
        if op in "|^":
            # no bit in common: the sum
            for p, q in ((a, b), (b, a)):
                lo, hi = rng_of(q)
                if lo >= 0 and hi < math.inf:
                    if hi == 0: return p
                    n = 1 << int(hi).bit_length()
                    dp, cp = lin(p)
                    if all(isinstance(z, int) and z % n == 0 for z in list(dp.values()) + [cp]): return arithnum("+", p, q)
        if op == "&":
            if not isinstance(b, T) and b >= 0:
                if la >= 0 and ha < math.inf and (int(ha).bit_length() <= b.bit_length()) and b & (b + 1) == 0: return a
                rng = (0, b)
        elif la >= 0 and lb >= 0 and ha < math.inf and hb < math.inf:
            n = max(int(ha).bit_length(), int(hb).bit_length())
            rng = (0, (1 << n) - 1)
        return mk(op, a, b, ty="int", rng=rng)
    if op == "**":
        return mk("**", a, b, ty="float" if ty == "float" else "int")
    raise Unknown("operator " + op)


def secs(td):
    if isinstance(td, T) and td.op == "td": return td.args[0]
    if isinstance(td, T) and td.op == "dtdiff" and isinstance(td.args[0], T) and isinstance(td.args[1], T) and td.args[0].id > td.args[1].id:
        return arithnum("*", secs(mk("dtdiff", td.args[1], td.args[0], ty="timedelta")), -1)
    return mk("seconds", td, ty="float")


def neg(a):
    if isinstance(a, T):
        if a.ty == "any": return ite(kind_is(a, "int", "float", "bool"), arithnum("*", num(a), -1), Exc("TypeError"))
        if a.ty in NUM: return arithnum("*", a, -1)
        return mk("neg", a, ty=a.ty)
    try: return -a
    except Exception as e: return Exc(type(e).__name__)


# ------------------------------------------------------------- comparison
def batom(op, *a):
    return cond(mk(op, *a, ty="bool"))


def ncmp(op, a, b):
    """Numeric comparison of leaves -> condition."""
    da, ca = lin(a); db, cb = lin(b)
    d = dict(da)
    for t, k in db.items(): d[t] = d.get(t, 0) - k
    d = {t: k for t, k in d.items() if k != 0}
    c = cb - ca        # sum d  op  c
    if not d:
        if isinstance(a, T) and a.ty == "float" and op != "!=" and a.op in ("sym", "item", "num", "u"):
            pass
        return {"<": 0 < c, "<=": 0 <= c, ">": 0 > c, ">=": 0 >= c, "==": 0 == c, "!=": 0 != c}[op]
    if op == "!=": return not_(ncmp("==", a, b))
    isint = all(t.ty in ("int", "bool") for t in d)
    if len(d) == 1:
        (x, k), = d.items()
        lhs = x
        if k < 0: op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op]
        c = c / k if not (isinstance(c, int) and isinstance(k, int) and c % k == 0) else c // k
    else:
        items = sorted(d.items(), key=lambda p: p[0].id)
        k0 = items[0][1]
        if k0 < 0: op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op]
        if isint and all(isinstance(k, int) for k in d.values()) and isinstance(c, int):
            g = 0
            for k in d.values(): g = math.gcd(g, k)
            k0 = g if k0 > 0 else -g
            if op == "==" and c % g: return False
            lhs = mklin({t: k // k0 for t, k in d.items()}, 0, "int")
            c = c / k0 if c % k0 else c // k0
        else:
            isint = False
            lhs = mklin({t: k / k0 for t, k in d.items()}, 0, "float")
            c = c / k0
    if isinstance(c, float): c = snap(c)
    lo, hi = rng_of(lhs)
    nonnan = isint or lhs.rng is not None
    if isint:
        if isinstance(c, float) and c == math.inf: return op in ("<", "<=")
        if isinstance(c, float) and c == -math.inf: return op in (">", ">=")
        if c != c: return False
        if op == "==":
            if c != int(c): return False
            c = int(c)
            if c < lo or c > hi: return False
            if lo == hi: return True
            if isinstance(lhs, T) and lhs.op in ("m:find", "m:rfind", "m:count") and len(lhs.args) == 2 and isinstance(lhs.args[0], T) and lhs.args[0].ty == "str" and c == (0 if lhs.op == "m:count" else -1):
                return not_(contains(lhs.args[0], lhs.args[1]))
            return batom("eq", lhs, c)
        if isinstance(lhs, T) and lhs.op in ("m:find", "m:rfind", "m:count") and len(lhs.args) == 2 and lhs.args[0].ty == "str" if isinstance(lhs, T) and lhs.args and isinstance(lhs.args[0], T) else False:
            none = {"<": math.ceil(c), "<=": math.floor(c) + 1, ">": math.floor(c) + 1, ">=": math.ceil(c)}[op] == (1 if lhs.op == "m:count" else 0)
            if none: return (not_ if op in ("<", "<=") else lambda z: z)(contains(lhs.args[0], lhs.args[1]))
        if op == "<": c, n = math.ceil(c), False
        elif op == "<=": c, n = math.floor(c) + 1, False
        elif op == ">": c, n = math.floor(c) + 1, True
        else: c, n = math.ceil(c), True
        if hi < c or lo >= c: r = hi < c
        elif isinstance(lhs, T) and lhs.op == "int" and isinstance(lhs.args[0], T) and lhs.args[0].ty == "float" and (lhs.args[0].rng is not None or lin(lhs.args[0])[0] and all(t.rng is not None for t in lin(lhs.args[0])[0])):
            x = lhs.args[0]         # int(x) < c: truncation towards zero
            r = ncmp("<", x, c) if c > 0 else ncmp("<=", x, c - 1)
        else: r = batom("lt", lhs, c)
        return not_(r) if n else r
    if nonnan:
        if op == "<" and (hi < c or lo >= c): return hi < c
        if op == "<=" and (hi <= c or lo > c): return hi <= c
        if op == ">" and (lo > c or hi <= c): return lo > c
        if op == ">=" and (lo >= c or hi < c): return lo >= c
        if op == "==" and (c < lo or c > hi): return False
        # a value known to be a number: ge and gt are complements of lt and le
        if op == ">=": return not_(batom("lt", lhs, c))
        if op == ">": return not_(batom("le", lhs, c))
    return batom({"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq"}[op], lhs, c)


def compare(op, a, b):
    """Comparison of two leaves -> condition, or Exc / gated with Exc."""
    if isinstance(a, T) and isinstance(b, T) and "nullptr" in (a.op, b.op) and op in ("==", "!=", "is", "is not") and a.ty == b.ty == "ext":
        return (a.op == b.op) == (op in ("==", "is"))
    if op in ("is", "is not"):
        r = compare_is(a, b)
        return not_(r) if op == "is not" else r
    if isconst(a) and isconst(b) and not isinstance(a, Exc) and not isinstance(b, Exc):
        try: return {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op](a, b)
        except Exception as e: return Exc(type(e).__name__)
    ta, tb = tyof(a), tyof(b)
    if ta in NUM and tb in NUM: return ncmp(op, a, b)
    if op == "!=":
        r = compare("==", a, b)
        return gmap(lambda x: x if isinstance(x, Exc) else not x, r)
    if "any" in (ta, tb):
        if op == "==":
            if a is b: return True
            x, y = (a, b) if ta == "any" else (b, a)
            ty = tyof(y)
            if ty in NUM: return and_(kind_is(x, "int", "float", "bool"), ncmp("==", num(x), y))
            if ty == "none": return kind_is(x, "none")
            if ty == "any":
                if x.id > y.id: x, y = y, x
                return batom("eq", x, y)
            if ty == "str": return and_(kind_is(x, "str"), batom("eq", strv(x), y) if not isinstance(y, T) else eqt(strv(x), y))
            return batom("eq", x, y) if isinstance(y, (T, Ref)) or isconst(y) else False
        bad = False
        for x, t in ((a, ta), (b, tb)):
            if t == "any": bad = or_(bad, not_(kind_is(x, "int", "float", "bool")))
            elif t not in NUM: bad = True
        if bad is True: return Exc("TypeError")
        return ite(bad, Exc("TypeError"), ncmp(op, num(a), num(b)))
    if op == "==":
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = True
            for x, y in zip(a, b): r = and_(r, gcompare("==", x, y))
            return r
        if a is b or not isinstance(a, T) and not isinstance(b, T) and same(a, b): return True
        if "unk" in (ta, tb): return batom("unkeq", a, b)
        if ta != tb: return False
        if isinstance(a, T) and isinstance(b, T): return eqt(a, b)
        if isinstance(a, T) or isinstance(b, T):
            x, c = (a, b) if isinstance(a, T) else (b, a)
            if ta in ("str", "bytes") and isconst(c):
                L = LEN.get(x)
                if L is not None and L != len(c): return False
                if len(c) == 0: return gcompare("==", length(x), 0)
                if x.op == "item" and ta == "str" and isinstance(x.args[0], T) and x.args[0].ty == "str" and x.args[1] in (0, -1):
                    return batom("endswith" if x.args[1] else "startswith", x.args[0], c) if len(c) == 1 else False
                f = eqconcat(x, c)
                if f is not None: return f
                if x.op == "slice" and x.args[1] in (0, None) and isinstance(x.args[2], int) and x.args[2] >= 0 and len(c) >= x.args[2] > 0:
                    return False if len(c) > x.args[2] else batom("startswith", x.args[0], c)
            return batom("eq", x, c)
        return same(a, b)
    if ta == tb and ta in ("str", "bytes", "datetime"):
        o = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op]
        return batom("s" + o, a, b)
    if ta == "timedelta" or tb == "timedelta":
        if ta == tb: return compare(op, secs(a), secs(b))
        return wrong(a, b)
    if "unk" in (ta, tb): return batom("unk" + op, a, b)
    return wrong(a, b)


def contains(c, x):
    """x in c for strings; a separator occurs exactly when splitting at it gives more than one part."""
    if isinstance(x, str) and x == "": return True
    if isinstance(c, T) and isinstance(x, str): return ncmp(">", length(mk("split", c, x, ty="list[str]")), 1)
    return batom("contains", c, x)


def eqconcat(x, c):
    """Equality of a concatenation with a constant: decide by fixed prefix/suffix where possible."""
    if x.op == "concat":
        p, q = x.args[0], x.args[-1]
        if isconst(p) and not c.startswith(p): return False
        if isconst(q) and not c.endswith(q): return False
    return None


def strv(x):
    """String view of an untyped value."""
    if isinstance(x, T) and x.ty == "any": return mk("str", x, ty="str")
    return x


def eqt(a, b):
    if a is b: return True
    if a.id > b.id: a, b = b, a
    return batom("eq", a, b)


def compare_is(a, b):
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        x, c = (a, b) if b is None or isinstance(b, bool) else (b, a)
        if isinstance(x, T):
            if x.ty == "any": return kind_is(x, "none") if c is None else and_(kind_is(x, "bool"), batom("eq", num(x), int(c)))
            if isinstance(c, bool) and x.ty == "bool": return cond(x) if c else not_(cond(x))
            if x.ty == "unk": return batom("is", x, c)
            return False
        return same(x, c)
    if isinstance(a, T) or isinstance(b, T): return a is b or compare("==", a, b)
    return same(a, b)


def gcompare(op, a, b):
    r = False
    for ca, x in leaves(a):
        for cb, y in leaves(b):
            c = and_(ca, cb)
            if c is False: continue
            v = compare(op, x, y)
            r = ite(c, v, r)
    return r


def truth_leaf(v):
    if isinstance(v, T):
        if v.ty == "bool": return cond(v)
        if v.ty in ("int", "float"): return ncmp("!=", v, 0)
        if v.ty in ("str", "bytes", "list[str]", "list[any]"): return ncmp(">", length(v), 0)
        if v.op == "nullptr": return False
        if v.ty in ("datetime", "ext", "obj"): return True
        if v.ty == "any":
            r = batom("truthy", v)
            return ite(kind_is(v, "none"), False, r)
        return batom("truthy", v)
    if isinstance(v, Exc): return True
    if isconst(v): return bool(v)
    if isinstance(v, tuple): return len(v) > 0
    return True


# ------------------------------------------------------------- strings and bytes
def length(v):
    """len() of a str/bytes/sequence leaf."""
    if isinstance(v, (str, bytes, tuple)): return len(v)
    if v in LEN: return LEN[v]
    if v.op == "concat":
        r = 0
        for p in v.args: r = gadd(r, length(p))
        return r
    if v.op == "slice":
        r = slicelen(v)
        if r is not None: return r
    if v.op in ("split", "rsplit") and len(v.args) == 3 and isinstance(v.args[2], int) and v.args[2] >= 0 and v.args[1] is not None:
        return gmin(length(mk("split", v.args[0], v.args[1], ty="list[str]")), v.args[2] + 1)
    if v.op in ("hex",): return arithnum("*", length(v.args[0]), 2) if not isinstance(length(v.args[0]), G) else mk("len", v, ty="int", rng=(0, math.inf))
    if v.op == "upper" or v.op == "lower": return length(v.args[0])
    if v.op == "pack1": return v.args[2]
    if v.op == "repeat": return gmap(lambda n: arithnum("*", n, length(v.args[0])) if not isinstance(n, G) else n, v.args[1])
    if v.op == "json.dumps" or v.op == "gzip" or v.op == "encode" and isinstance(v.args[0], T) and rng_of(length(v.args[0]))[0] >= 1: return mk("len", v, ty="int", rng=(1, math.inf))
    return mk("len", v, ty="int", rng=(1 if v.op == "split" and len(v.args) > 1 and v.args[1] is not None else 0, math.inf))


def gadd(a, b):
    r = ABSENT
    for ca, x in leaves(a):
        for cb, y in leaves(b):
            c = and_(ca, cb)
            if c is not False: r = arithnum("+", x, y) if r is ABSENT else ite(c, arithnum("+", x, y), r)
    return r


def gmin(a, b):
    """min of two leaf/gated ints."""
    r = ABSENT
    for ca, x in leaves(a):
        for cb, y in leaves(b):
            c = and_(ca, cb)
            if c is False: continue
            v = ite(ncmp("<", y, x), y, x)
            r = v if r is ABSENT else ite(c, v, r)
    return r


def gmax(a, b):
    r = ABSENT
    for ca, x in leaves(a):
        for cb, y in leaves(b):
            c = and_(ca, cb)
            if c is False: continue
            v = ite(ncmp("<", x, y), y, x)
            r = v if r is ABSENT else ite(c, v, r)
    return r


def slicelen(v):
    x, a, b = v.args
    L = length(x)
    if isinstance(a, int) and a >= 0 and b is None:
        return gmax(gadd(L, -a), 0)
    if isinstance(a, int) and a < 0 and b is None: return gmin(L, -a)
    if a in (0, None) and isinstance(b, int) and b >= 0: return gmin(L, b)
    if a in (0, None) and isinstance(b, int) and b < 0: return gmax(gadd(L, b), 0)
    if isinstance(a, int) and isinstance(b, int) and 0 <= a <= b: return gmax(gmin(gadd(L, -a), b - a), 0)
    return None


def concat(*parts):
    out = []
    ty = None
    for p in parts:
        if isinstance(p, T) and p.op == "concat": ps = p.args
        else: ps = (p,)
        ty = ty or tyof(ps[0])
        for q in ps:
            if isinstance(q, (str, bytes)) and not q: continue
            if out and isinstance(q, (str, bytes)) and isinstance(out[-1], (str, bytes)): out[-1] = out[-1] + q
            elif out and isinstance(q, T) and isinstance(out[-1], T) and q.op == "slice" and out[-1].op == "slice" and q.args[0] is out[-1].args[0] and out[-1].args[2] is not None and same(out[-1].args[2], q.args[1]):
                out[-1] = slice_(q.args[0], out[-1].args[1], q.args[2])
            else: out.append(q)
    if not out: return b"" if ty == "bytes" else ""
    if len(out) == 1: return out[0]
    return mk("concat", *out, ty=ty)


def choice(g, limit=16):
    """A gated bytes value whose alternatives have one constant length, as a single term (keeps concatenations factored)."""
    if not isinstance(g, G): return g
    L = None
    for _, x in leaves(g):
        if tyof(x) != "bytes" or not isinstance(x, (bytes, T)): return g
        l = length(x)
        if not isinstance(l, int) or L is not None and l != L or l > limit or l == 0: return g
        L = l
    t = mk("choose", g, ty="bytes")
    LEN[t] = L
    return t


def factor(c, x, y):
    """ite(c, x, y) of bytes values, factored over their common prefix when the rest has one constant length; or None."""
    if not (isinstance(x, (bytes, T)) and isinstance(y, (bytes, T)) and tyof(x) == tyof(y) == "bytes"): return None
    px = list(x.args) if isinstance(x, T) and x.op == "concat" else [x]
    py = list(y.args) if isinstance(y, T) and y.op == "concat" else [y]
    pre = []
    while px and py and same(px[0], py[0]): pre.append(px.pop(0)); py.pop(0)
    if px and py and isinstance(px[0], bytes) and isinstance(py[0], bytes):
        n = 0
        while n < min(len(px[0]), len(py[0])) and px[0][n] == py[0][n]: n += 1
        if n:
            pre.append(px[0][:n])
            px[0], py[0] = px[0][n:], py[0][n:]
    if not pre and not (length(x) == length(y) == 1): return None
    a, b = concat(b"", *px), concat(b"", *py)
    g = choice(ite(c, a, b), 8)
    return concat(*pre, g) if isinstance(g, T) and g.op == "choose" else None


def slice_(x, a, b):
    """x[a:b] of a str/bytes leaf with int/None/T bounds."""
    if isinstance(x, (str, bytes, tuple)) and all(z is None or isinstance(z, int) for z in (a, b)): return x[a:b]
    if isinstance(x, tuple): raise Unknown("slice of tuple with symbolic bounds")
    if x is ABSENT: return x
    L = length(x) if isinstance(x, T) else len(x)
    if isinstance(L, int) and all(z is None or isinstance(z, int) for z in (a, b)):
        a, b, _ = slice(a, b).indices(L)
        if b <= a: return b"" if tyof(x) == "bytes" else ""
        if a == 0 and b == L: return x
    else:
        if a == 0 or a is None: a = 0
        if a == 0 and b is None: return x
        if isinstance(a, int) and isinstance(b, int) and 0 <= b <= a: return b"" if tyof(x) == "bytes" else ""
    if isinstance(x, T):
        if x.op == "choose" and all(z is None or isinstance(z, int) for z in (a, b)):
            return choice(gmap(lambda q: slice_(q, a, b), x.args[0]))
        if x.op == "slice" and not isinstance(x.args[0], (str, bytes)):
            y, c, d = x.args
            nonneg = lambda z: (isinstance(z, int) and z >= 0) or (isinstance(z, T) and rng_of(z)[0] >= 0)
            if nonneg(c) and nonneg(a) and (b is None or nonneg(b)) and (d is None or (isinstance(L, int))):
                na = arithnum("+", c, a)
                if b is None: nb = d
                else: nb = arithnum("+", c, b)
                if d is None or b is None or isinstance(nb, int) and isinstance(d, int) and nb <= d: return slice_(y, na, nb)
        if x.op == "concat" and all(z is None or isinstance(z, int) for z in (a, b)):
            # peel parts of known length
            ls = [length(p) for p in x.args]
            if all(isinstance(l, int) for l in ls):
                out, pos = [], 0
                aa, bb, _ = slice(a, b).indices(sum(ls))
                for p, l in zip(x.args, ls):
                    s, e = max(aa - pos, 0), min(bb - pos, l)
                    if s < e: out.append(slice_(p, s, e))
                    pos += l
                return concat(*out) if out else (b"" if x.ty == "bytes" else "")
            if isinstance(ls[0], int) and isinstance(a, int) and a >= ls[0] and b is None: return slice_(concat(*x.args[1:]), a - ls[0], None)
            if isinstance(ls[0], int) and a in (0, None) and isinstance(b, int) and 0 <= b <= ls[0]: return slice_(x.args[0], 0, b)
            if isinstance(ls[-1], int) and isinstance(a, int) and a < 0 and b is None and -a <= ls[-1]: return slice_(x.args[-1], ls[-1] + a, None)
            if isinstance(ls[-1], int) and a in (0, None) and isinstance(b, int) and b < 0 and -b >= ls[-1]:
                return slice_(concat(*x.args[:-1]), 0, b + ls[-1] or None)
            if isinstance(ls[-1], int) and a in (0, None) and isinstance(b, int) and b < 0:
                return concat(*x.args[:-1], slice_(x.args[-1], 0, b))
            if isinstance(ls[0], int) and isinstance(a, int) and 0 < a < ls[0] and b is None: return concat(slice_(x.args[0], a, None), *x.args[1:])
    r = mk("slice", x, a, b, ty=tyof(x))
    if isinstance(L, int) and isinstance(a, int) and isinstance(b, int): LEN[r] = b - a
    return r


SIZES = {"B": 1, "b": 1, "c": 1, "?": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8, "f": 4, "d": 8, "e": 2}
RNG = {"B": (0, 255), "b": (-128, 127), "H": (0, 65535), "h": (-32768, 32767), "I": (0, 2 ** 32 - 1), "i": (-2 ** 31, 2 ** 31 - 1),
       "L": (0, 2 ** 32 - 1), "l": (-2 ** 31, 2 ** 31 - 1), "Q": (0, 2 ** 64 - 1), "q": (-2 ** 63, 2 ** 63 - 1)}


def u(x, off, ch, end):
    """Value of struct format character ch at offset off of bytes x (end '<' or '>')."""
    if SIZES[ch] == 1: end = "<"
    if isinstance(x, bytes):
        import struct
        return struct.unpack(end + ch, x[off:off + SIZES[ch]] if off >= 0 else x[off:][:SIZES[ch]])[0]
    if x.op == "slice" and isinstance(x.args[1], int) and isinstance(off, int):
        y, a, b = x.args
        L = length(y)
        if off >= 0 and (a >= 0 or a + off < 0): return u(y, a + off, ch, end)
    if x.op == "choose" and isinstance(off, int): return gmap(lambda q: u(q, off, ch, end), x.args[0])
    if x.op == "concat":
        pos = 0
        for p in x.args:
            l = length(p)
            if not isinstance(l, int): break
            if off >= pos and off + SIZES[ch] <= pos + l: return u(p, off - pos, ch, end)
            pos += l
        else:
            sub = slice_(x, off, off + SIZES[ch])
            if sub is not x: return u(sub, 0, ch, end)
    if x.op == "pack1" and off == 0 and x.args[0] == end + ch or x.op == "pack1" and SIZES[ch] == 1 and x.args[0][-1] == ch and off == 0:
        return x.args[1]
    if x.op == "bytesof" and isinstance(off, int) and SIZES[ch] == 1 and 0 <= off < len(x.args):
        return x.args[off]
    ty = "float" if ch in "fde" else "bytes" if ch == "c" else "bool" if ch == "?" else "int"
    L = length(x)
    if isinstance(L, int) and isinstance(off, int) and off < 0: off += L
    return mk("u", x, off, end + ch, ty=ty, rng=RNG.get(ch))


def byte_at(x, i):
    return u(x, i, "B", "<")


# ------------------------------------------------------------- formatting
def fmt(v, spec=""):
    """format(v, spec) of a leaf -> str leaf / Exc."""
    if isinstance(v, T):
        if v.ty == "str":
            if spec == "" or spec == "s": return v
            if spec[-1] in "dfxXeEgGb%o": return Exc("ValueError")
        if v.ty in ("none", "bytes") and spec: return Exc("TypeError")
        if v.ty == "any" and spec and spec[-1] in "dfxXeEgGb%o":
            ok = kind_is(v, "int", "float", "bool") if spec[-1] not in "dxXbo" else kind_is(v, "int", "bool")
            return ite(ok, mk("fmt", canon_spec(spec), num(v), ty="str"), Exc("ValueError"))
        if v.ty == "float" and spec and spec[-1] in "dxXbo": return Exc("ValueError")
        if v.ty == "bool" and spec == "": return ite(cond(v), "True", "False")
        return mk("fmt", canon_spec(spec), v, ty="str")
    if isconst(v) and not isinstance(v, Exc):
        try: return format(v, spec)
        except Exception as e: return Exc(type(e).__name__)
    if isinstance(v, Exc): return mk("excstr", v.name, ty="str")
    if isinstance(v, tuple): return mk("fmt", "", v, ty="str")
    return mk("fmt", spec, v, ty="str")


def canon_spec(s):
    if s in ("d", "s"): return ""
    if s and s[-1] == "d": s = s[:-1]
    if len(s) > 2 and s[0] == "0" and s[1] == ">": s = "0" + s[2:]
    return s


import re
_pct = re.compile(r"%(\((\w+)\))?([#0\- +]*)(\*|\d+)?(\.\d+)?([diouxXeEfFgGcrsa%])")


def pctfmt(f, args):
    if not isinstance(f, str): return mk("pct", f, ty="str")
    a = list(args) if isinstance(args, tuple) else [args]
    out, pos, i = [], 0, 0
    exc = False
    for m in _pct.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        conv = m.group(6)
        if conv == "%": out.append("%"); continue
        if m.group(2): raise Unknown("mapping format")
        if i >= len(a): return Exc("TypeError")
        v = a[i]; i += 1
        out.append((m.group(3), m.group(4), m.group(5), conv, v))
    out.append(f[pos:])
    if i != len(a) and not (len(a) == 1 and isinstance(a[0], Ref)): return Exc("TypeError")
    r = ""
    for o in out:
        if isinstance(o, str): r = gconcat(r, o); continue
        fl, w, p, conv, v = o
        def one(x, fl=fl, w=w, p=p, conv=conv):
            if isconst(x) and not isinstance(x, (Exc, tuple)):
                try: return ("%" + fl + (w or "") + (p or "") + conv) % (x,)
                except Exception as e: return Exc(type(e).__name__)
            if conv in "sra": return fmt(x, "") if not (w or p) else mk("fmt", fl + (w or "") + (p or ""), x, ty="str")
            t = tyof(x)
            if conv in "diu":
                if t == "float": x = mk("int", x, ty="int")
                elif t == "any": return ite(kind_is(x, "int", "float", "bool"), fmt(mk("int", num(x), ty="int"), fl + (w or "")), Exc("TypeError"))
                elif t not in NUM: return wrong(x) if t != "unk" else mk("fmt", "", x, ty="str")
                return fmt(x, fl + (w or ""))
            if conv in "xXo":
                if t not in ("int", "bool"): return wrong(x)
                return fmt(x, fl + (w or "") + conv)
            if t == "any": return ite(kind_is(x, "int", "float", "bool"), fmt(num(x), fl + (w or "") + (p or "") + conv), Exc("TypeError"))
            if t not in NUM: return wrong(x) if t != "unk" else mk("fmt", "", x, ty="str")
            return fmt(x, fl + (w or "") + (p or "") + conv)
        r = gconcat(r, gmap(one, v))
    return r


def gconcat(a, b):
    r = ABSENT
    for ca, x in leaves(a):
        for cb, y in leaves(b):
            c = and_(ca, cb)
            if c is False: continue
            v = x if isinstance(x, Exc) else y if isinstance(y, Exc) else concat(x, y)
            r = v if r is ABSENT else ite(c, v, r)
    return r
