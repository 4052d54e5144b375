"""Parser for the ASN.1 subset used by the published v3 schema."""
import re
from common import Broken


class Ty:
    """kind: INTEGER (lo, hi), BOOLEAN, REAL, IA5String (alphabet, size), OCTET STRING (size), SEQUENCE, CHOICE, ENUMERATED, OF."""
    def __init__(self, kind, **k): self.kind = kind; self.__dict__.update(k)
    def __repr__(self): return "%s%s" % (self.kind, {k: v for k, v in self.__dict__.items() if k != "kind"})


class Comp:
    def __init__(self, name, ty, optional, ext): self.name, self.ty, self.optional, self.ext = name, ty, optional, ext


TOK = re.compile(r'"(?:[^"]|"")*"|::=|\.\.\.|\.\.|-?\d+|[A-Za-z](?:-?[A-Za-z0-9])*|[{}()\[\],|^;<]')


def tokens(text):
    text = re.sub(r"--.*?(?:--|$)", " ", text, flags=re.M)
    out, p = [], 0
    while p < len(text):
        if text[p].isspace(): p += 1; continue
        m = TOK.match(text, p)
        if not m: raise Broken("schema: cannot read %r" % text[p:p + 30])
        out.append(m.group(0)); p = m.end()
    return out


class Parser:
    def __init__(self, text): self.t, self.i = tokens(text), 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def eat(self, x=None):
        if self.i >= len(self.t): raise Broken("schema: unexpected end")
        y = self.t[self.i]
        if x is not None and y != x: raise Broken("schema: expected %s, found %s" % (x, y))
        self.i += 1
        return y

    def module(self):
        out = {}
        self.mod = self.eat(); self.eat("DEFINITIONS")
        self.tags = self.eat() if self.peek() in ("AUTOMATIC", "EXPLICIT", "IMPLICIT") else None
        if self.tags: self.eat("TAGS")
        self.eat("::="); self.eat("BEGIN")
        while self.peek() != "END":
            n = self.eat(); self.eat("::=")
            out[n] = self.type()
        return out

    def num(self):
        x = self.eat()
        return {"MIN": None, "MAX": None}.get(x, 0) if x in ("MIN", "MAX") else int(x)

    def range_(self):
        a = self.num()
        b = a
        if self.peek() == "..": self.eat(); b = self.num()
        return (a, b)

    def size(self):
        self.eat("SIZE"); self.eat("(")
        r = self.range_()
        ext = False
        if self.peek() == ",": self.eat(); self.eat("..."); ext = True
        self.eat(")")
        return r, ext

    def constraint(self, d):
        self.eat("(")
        while True:
            if self.peek() == "FROM":
                self.eat(); self.eat("(")
                s = ""
                while True:
                    x = self.eat()
                    if not x.startswith('"'): raise Broken("schema: alphabet")
                    x = x[1:-1].replace('""', '"')
                    if self.peek() == "..":
                        self.eat(); y = self.eat()[1:-1]
                        x = "".join(map(chr, range(ord(x), ord(y) + 1)))
                    s += x
                    if self.peek() == "|": self.eat(); continue
                    break
                self.eat(")")
                d["alphabet"] = "".join(sorted(set(s)))
            elif self.peek() == "SIZE": d["size"], d["sizeext"] = self.size()
            else: d["range"] = self.range_()
            if self.peek() == "^": self.eat(); continue
            if self.peek() == ",": self.eat(); self.eat("..."); d["ext"] = True
            break
        self.eat(")")

    def components(self):
        self.eat("{")
        out, ext, hasext = [], False, False
        while self.peek() != "}":
            if self.peek() == "...":
                self.eat(); hasext = True; ext = not ext
            else:
                n = self.eat(); t = self.type()
                opt = False
                if self.peek() == "OPTIONAL": self.eat(); opt = True
                elif self.peek() == "DEFAULT": raise Broken("schema: DEFAULT")
                out.append(Comp(n, t, opt, ext))
            if self.peek() == ",": self.eat()
        self.eat("}")
        return out, hasext

    def type(self):
        k = self.eat()
        if k == "SEQUENCE" and self.peek() == "{":
            c, e = self.components()
            return Ty("SEQUENCE", comps=c, ext=e)
        if k == "CHOICE":
            c, e = self.components()
            return Ty("CHOICE", comps=c, ext=e)
        if k == "SEQUENCE":
            d = {"size": (0, None), "sizeext": False}
            if self.peek() == "(": self.constraint(d)
            elif self.peek() == "SIZE": d["size"], d["sizeext"] = self.size()
            self.eat("OF")
            return Ty("OF", elem=self.type(), **d)
        if k == "ENUMERATED":
            self.eat("{")
            out, e, nxt = [], False, 0
            while self.peek() != "}":
                if self.peek() == "...": self.eat(); e = True
                else:
                    n = self.eat(); v = nxt
                    if self.peek() == "(": self.eat(); v = int(self.eat()); self.eat(")")
                    out.append((n, v)); nxt = v + 1
                if self.peek() == ",": self.eat()
            self.eat("}")
            return Ty("ENUMERATED", items=out, ext=e)
        if k == "OCTET": self.eat("STRING"); k = "OCTET STRING"
        if k == "BIT": raise Broken("schema: BIT STRING")
        if k in ("INTEGER", "REAL", "BOOLEAN", "IA5String", "OCTET STRING", "NULL", "UTF8String", "NumericString"):
            d = {"range": None, "alphabet": None, "size": None, "ext": False, "sizeext": False}
            while self.peek() == "(": self.constraint(d)
            return Ty(k, **d)
        return Ty("REF", name=k)


def load(text):
    p = Parser(text)
    m = p.module()
    m["_tags"] = p.tags
    return m


def resolve(m, t):
    seen = 0
    while t.kind == "REF":
        if t.name not in m: raise Broken("schema: undefined type %s" % t.name)
        t = m[t.name]
        seen += 1
        if seen > 20: raise Broken("schema: cyclic type")
    return t
