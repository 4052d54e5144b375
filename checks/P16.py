"""Every v3 telemetry field is translated, with the right name and unit."""
from pylib import *
import ref_shapes as RS, asn1

SCHEMA = "horusbinaryv3/HorusBinaryV3.asn1"


class Shape:
    """Values of the schema's type, one symbol per component; optional components present under a boolean symbol."""
    def __init__(self, m, tag, has=None, sizes=None, choice=None):
        self.m, self.tag, self.has, self.sizes, self.choice = m, tag, has or {}, sizes or {}, choice or {}

    def build(self, I, ty, p):
        t = asn1.resolve(self.m, ty)
        n = self.tag + p
        if t.kind == "INTEGER": return sym(n, "int", t.range)
        if t.kind == "REAL": return sym(n, "float")
        if t.kind == "BOOLEAN": return cond(sym(n, "bool"))
        if t.kind == "IA5String": return sym(n, "str")
        if t.kind == "ENUMERATED": return sym(n, "str")
        if t.kind == "OCTET STRING": return sym(n, "bytes")
        if t.kind == "OF":
            k = self.sizes.get(p, t.size[1] or 4)
            return I.newlist([self.build(I, t.elem, "%s[%d]" % (p, i)) for i in range(k)])
        if t.kind == "CHOICE":
            r = ABSENT
            for j, c in enumerate(t.comps):
                if p in self.choice and c.name != self.choice[p]: continue
                v = (c.name, self.build(I, c.ty, "%s:%s" % (p, c.name)))
                r = v if r is ABSENT else ite(compare_eq(sym(n + " kind", "int", (0, len(t.comps) - 1)), j), v, r)
            return r
        if t.kind == "SEQUENCE":
            pairs = []
            for c in t.comps:
                q = "%s.%s" % (p, c.name)
                v = self.build(I, c.ty, q)
                if c.optional:
                    h = self.has.get(q, True if self.has.get(q + "?") else None)
                    h = cond(sym("has " + self.tag + q, "bool")) if h is None else h
                    if h is False: continue
                    v = ite(h, v, ABSENT)
                pairs.append((c.name, v))
            return I.newdict(pairs)
        raise CBroken("schema type %s" % t.kind)


def compare_eq(a, b): return ncmp("==", a, b)


def ncmp(op, a, b): return ops.compare(op, a, b)



def optional_paths(m):
    out = []
    def go(t, p):
        t = asn1.resolve(m, t)
        if t.kind in ("SEQUENCE",):
            for c in t.comps:
                q = "%s.%s" % (p, c.name)
                if c.optional: out.append(q)
                go(c.ty, q)
        elif t.kind == "OF":
            for i in range(t.size[1] or 4): go(t.elem, "%s[%d]" % (p, i))
    go(m["Telemetry"], "")
    return out


def run():
    p = PyCheck("P16", assumptions=["the ASN.1 decoder returns a value of the published schema's type or raises (asn1tools)", "sensor names in one packet do not coincide with built-in field names ('count' as the name of a text sensor)"])
    m = asn1.load(read(SCHEMA))
    opt = optional_paths(m)
    top = [q for q in opt if q.count(".") == 1]
    keys = set()

    def scen(w, shapes, when=True):
        """Consecutive packets through one decoder: the last one is compared."""
        cur = []
        def dec(I, a, k):
            I.raise_if(cond(sym("asn1 decode error", "bool")), Exc("asn1tools.DecodeError"))
            return cur[0].build(I, m["Telemetry"], "")
        I = RS.decoder_engine(p, asn=dec)
        I.load("ref_v3")
        names = I.newdict([])
        d = RS.packet(32)
        crc = I.get("ref_crc", "check")
        g = Act(I, crc, [d, "crc16", False])
        I.st.pc = g.at(lambda: I.truth(g.ret))
        f, rf = I.get("horusdemodlib.decoder", "decode_packet"), I.get("ref_v3", "v3")
        for k, s in enumerate(shapes):
            cur[:] = [s]
            start = I.st.pc
            a = Act(I, f, [d])
            I.st = a.st
            b = Act(I, rf, [s.build(I, m["Telemetry"], ""), names])
            I.st = b.st
            if a.pc is False: raise CBroken("%s: no packet is decoded" % w)
            wk = "decode_packet, v3 %s%s" % (w, "" if len(shapes) == 1 else ", packet %d" % (k + 1))
            err = cond(sym("asn1 decode error", "bool"))
            p.same(a.outcome(), "return", and_(start, not_(err)), "always-decoded", wk)
            t = s.tag + ".timeOfDaySeconds"
            tlo, thi = next(asn1.resolve(m, c.ty).range for c in m["Telemetry"].comps if c.name == "timeOfDaySeconds")
            both = and_(a.pc, b.pc)
            day = and_(and_(both, ncmp(">=", sym(t, "int", (tlo, thi)), 0)), ncmp("<", sym(t, "int", (tlo, thi)), 86400))
            ks = {key(x): x for x in b.keys() + [y for y in a.keys() if not isinstance(y, str)]}
            for kk, x in sorted(ks.items(), key=lambda z: repr(z[0])):
                keys.add(x if isinstance(x, str) else show(x))
                if x == "custom_field_names": p.same_members(a.item(x), b.item(x), both, "custom-names", wk)
                else: p.same(a.item(x), b.item(x), day if x == "time" else both, "field", "%s: %s" % (wk, x if isinstance(x, str) else show(x)))
            allowed = {key(x) for x in b.keys()} | {key(x) for x in ("raw", "packet_format", "ukhas_str", "altitude")} | {key(c.name) for c in m["Telemetry"].comps}
            for x in a.keys():
                if key(x) not in allowed: p.same(present(a.item(x)), False, both, "field-not-sent", "%s: %s" % (wk, show(x)))
    none = {q: False for q in opt}
    only = lambda *qs: {**none, **{q: None for q in opt if any(q == x or q.startswith(x + ".") or q.startswith(x + "[") for x in qs)}}
    p.run("mandatory fields", lambda: scen("mandatory fields only", [Shape(m, "a", none)]))
    for q in top:
        if q in (".extraSensors", ".counts"): continue
        p.run(q, lambda: scen("with %s" % q[1:], [Shape(m, "a", only(q))]))
    p.run("scalars", lambda: scen("all optional scalars in any combination", [Shape(m, "a", {**only(*[q for q in top if q not in (".extraSensors", ".counts")])})]))
    lo, hi = 1, 8
    for c in m["Telemetry"].comps:
        if c.name == "counts": lo, hi = asn1.resolve(m, c.ty).size
    for n in range(lo, hi + 1): p.run("counts %d" % n, lambda: scen("with %d counts" % n, [Shape(m, "a", {**only(".counts"), ".counts": True}, {".counts": n})]))
    for n in range(1, 5):
        for c in ("horusStr", "horusInt", "horusReal", "horusBool"):
            for k in ((1, 2, 3, 4) if c in ("horusInt", "horusReal") and n in (1, 4) else (2,)):
                sz, ch, has = {".extraSensors": n}, {}, {**only(".extraSensors"), ".extraSensors": True}
                for i in range(n):
                    pth = ".extraSensors[%d].values" % i
                    ch[pth] = c if i == n - 1 else ("horusStr", "horusInt", "horusBool", "horusReal")[i]
                    for y in ("horusInt", "horusReal"): sz["%s:%s" % (pth, y)] = k
                p.run("sensors %d %s %d" % (n, c, k), lambda: scen("%d sensors, last one %s[%d]" % (n, c, k), [Shape(m, "a", has, sz, ch)]))
    # name cache: two and three packets, callsigns and names free
    for n in (1, 2):
        def mk_(tag, vals):
            sz, ch, has = {".extraSensors": n}, {}, {**only(".extraSensors"), ".extraSensors": True}
            for i in range(n):
                ch[".extraSensors[%d].values" % i] = "horusStr"
                if vals: has[".extraSensors[%d].values" % i] = True
            return Shape(m, tag, has, sz, ch)
        p.run("names %d" % n, lambda: scen("%d sensors, name cache" % n, [mk_("a", True), mk_("b", True)]))
    p.run("names 3", lambda: scen("1 sensor, name cache, three packets", [Shape(m, t, {**only(".extraSensors"), ".extraSensors": True, ".extraSensors[0].values": True}, {".extraSensors": 1}, {".extraSensors[0].values": "horusStr"}) for t in "abc"]))
    # a packet after any other packet: the scalars of an earlier one leave no trace
    free = {**only(*[q for q in top if q not in (".extraSensors", ".counts")])}
    p.run("after scalars", lambda: scen("mandatory fields only after a packet with any scalars", [Shape(m, "a", free), Shape(m, "b", none)]))
    p.run("scalars after", lambda: scen("any scalars after a packet with mandatory fields only", [Shape(m, "a", none), Shape(m, "b", free)]))

    def hist(w, shapes):
        """The whole result of the last packet, its format description included, is that of the same packet decoded first."""
        cur = []
        def dec(I, a, k):
            I.raise_if(cond(sym("asn1 decode error", "bool")), Exc("asn1tools.DecodeError"))
            return cur[0].build(I, m["Telemetry"], "")
        I = RS.decoder_engine(p, asn=dec)
        d, crc, f = RS.packet(32), I.get("ref_crc", "check"), I.get("horusdemodlib.decoder", "decode_packet")
        g = Act(I, crc, [d, "crc16", False])
        I.st.pc = g.at(lambda: I.truth(g.ret))
        cur[:] = [shapes[-1]]
        first = Act(I, f, [d])
        for s in shapes[:-1]:
            cur[:] = [s]
            I.st = Act(I, f, [d]).after()
        cur[:] = [shapes[-1]]
        last = Act(I, f, [d])
        both = and_(first.pc, last.pc)
        p.same(last.outcome(), first.outcome(), I.st.pc, "history-independent", "decode_packet, v3, %s: outcome" % w)
        for x in {key(x): x for x in first.keys() + last.keys()}.values():
            if x == "time": continue
            p.same(last.item(x), first.item(x), both, "history-independent", "decode_packet, v3, %s: %s" % (w, show(x)))
    p.run("history 1", lambda: hist("mandatory fields only, after a packet with any scalars", [Shape(m, "a", free), Shape(m, "b", none)]))
    p.run("history 2", lambda: hist("any scalars, after two packets", [Shape(m, "a", free), Shape(m, "b", none), Shape(m, "c", free)]))
    return p.finish({"rule": "for every value of the schema's type: each key of the result and each custom field name equals the reference translation; keys not sent are absent", "optional_components": len(opt), "result_keys": len(keys)})


pymain(run)
