"""Payload ID and custom field lists load robustly."""
from pylib import *
from ops import batom
from interp import Exc

FIELDS = ["struct", "fields"]


def run():
    TEXTS = ["5,A", "0,B\n5,C", "#\n7,X\n7,Y", "x,1\n5,A", "1,2,3\n4, Q ", "", "\n\n9,Z", "-1,a", "1.0,b\n2,c", "#5,A\n,\n3,x", " 3 ,y\n3,z", "10,\n11,b"]
    BODIES = ["HORUS BINARY PAYLOAD ID LIST\n1,A ", "HORUSTEST {} ", "HORUS", "", "HORUSTES", "404", " HORUSTEST HORUS BINARY PAYLOAD ID LIST "]
    LONG = ["4,ABC\n" * 200000, "5,DEF\n", ""]
    p = PyCheck("P19", pools={sym("given file text", "str"): LONG, sym("packaged file text", "str"): LONG, sym("listtext", "str"): TEXTS, mk("attr", mk("response", 1, ty="ext"), "text", ty="str"): BODIES}, assumptions=["lists of up to three lines / entries with any content, longer ones with known content", "json.loads returns JSON values or raises ValueError"])

    def eng(json=None):
        I = p.engine()
        I.load("horusdemodlib.payloads"); I.load("ref_payloads")
        if json: I.ext["json.loads"] = json
        return I

    PM = "horusdemodlib.payloads"

    def total(a, w):
        p.never(a.raised(), "no-exception", w, "exceptions: " + ", ".join(sorted({str(n) for n, _, _ in a.raises})))

    def dicts(a, b, under, rule, w):
        both = and_(and_(a.pc, b.pc), under)
        if both is False: return
        ks = {key(k): k for k in a.keys() + b.keys()}
        for kk, k in sorted(ks.items(), key=lambda x: repr(x[0])):
            p.same(a.item(k), b.item(k), both, rule, "%s: entry %s" % (w, show(k)))

    def untouched(I, a, name, before, w):
        g = I.get(PM, name)
        p.same(a.at(lambda: I.freeze(g)), before, a.pc, "defaults-unchanged", w)

    # ---- payload ID lists
    def idlist(text, w):
        I = eng()
        d = I.get(PM, "HORUS_PAYLOAD_LIST")
        before = I.freeze(d)
        a = Act(I, I.get(PM, "parse_payload_list"), [text])
        b = Act(I, I.get("ref_payloads", "ids"), [text, d])
        total(a, w)
        dicts(a, b, True, "id-entry", w)
        untouched(I, a, "HORUS_PAYLOAD_LIST", before, w)

    GOOD = "4, ABC \n#c\n300,X-1\n0,NEW"
    CONC = ["", GOOD, GOOD + "\n", "7\n" + GOOD, "a,b\n" + GOOD, "#4,NO\n\n1,2,3\n" + GOOD, ",\n" + GOOD, "1,\n,2\n5,E", " 8 , F \n-1,G\n256,H", "9,I\r\n10,J\r\n", "1.5,A\n2,B", "x" * 50, "#", "\n\n", "3,A\n3,B"]
    CONC.append("# list\n" + "".join("%d, PAYLOAD-%d\n" % (i, i * 7919) if i % 10 else "# from %d\n" % i for i in range(1500 if not THOROUGH else 6000)))
    CONC.append("".join("%d,%s\n" % (65000 + i, "LONGCALLSIGN" * i) for i in range(20)) + "# " + "comment " * 500 + "\n9,AFTER")
    for i, t in enumerate(CONC): p.run("payload list text %d" % i, lambda: idlist(t, "payload list %s" % repr(t)[:80]))
    p.run("payload list, arbitrary text", lambda: idlist(sym("listtext", "str"), "payload list, arbitrary text"))
    LINES = ["", "#", "#x,1", "5,A", " 6 ,  B ", "x,C", "7", "1,2,3", ",", "1.0,D", "256,E", "0,F", "-3,G", "8,", " ", "11,G#H", "#"]
    import itertools
    def linegrid():
        I = eng()
        d = I.get(PM, "HORUS_PAYLOAD_LIST")
        for ls in itertools.product(LINES, repeat=2):
            t = "\n".join(ls)
            a = Act(I, I.get(PM, "parse_payload_list"), [t])
            b = Act(I, I.get("ref_payloads", "ids"), [t, d])
            total(a, "lines %r" % t)
            dicts(a, b, True, "id-entry", "lines %r" % t)
    p.run("payload list line pairs", linegrid)

    # ---- custom field lists
    S = lambda n: sym("struct " + n, "str")
    A = lambda n: sym("json " + n, "any")
    def entry(I, e): return I.newdict([(k, I.newlist(v) if isinstance(v, list) else v) for k, v in e.items()]) if isinstance(e, dict) else e
    good = {"struct": "<BbBfH", "fields": A("gf")}
    SHAPES = [
        {"A": {"struct": S("a"), "fields": A("fa")}, "B": {"struct": S("b"), "fields": A("fb")}},
        {"A": A("whole a"), "B": good},
        {"A": 5, "B": None, "C": good}, {"A": "structfields", "C": good}, {"A": 1.5, "4FSKTEST-V2": good},
        {"A": True, "C": good}, {"A": {}, "C": good}, {"A": {"struct": "<B"}, "C": good}, {"A": {"fields": A("f")}, "C": good},
        {"A": {"struct": A("anystruct"), "fields": A("fa")}, "C": good},
        {"A": {"struct": "bad!", "fields": A("f")}, "C": good}, {"A": {"struct": None, "fields": A("f")}, "C": good}, {"A": {"struct": 7, "fields": A("f")}, "C": good},
        {"A": {"struct": "<BBBBBBBB", "fields": A("f")}, "C": good}, {"A": {"struct": "<BBBBBBBBBB", "fields": A("f")}, "C": good}, {"A": {"struct": "<9s", "fields": A("f")}, "C": good},
        {"A": {"struct": S("a"), "fields": A("fa"), "other_payloads": ["X", "B", "HORUSTEST"]}, "B": {"struct": S("b"), "fields": A("fb")}},
        {"A": {"struct": S("a"), "fields": A("fa"), "other_payloads": []}, "HORUSTEST2": {"struct": S("b"), "fields": A("fb"), "other_payloads": ["A"]}},
        {"A": {"struct": S("a"), "fields": A("fa"), "extra": A("x")}},
        {"A": {"struct": "<9s", "fields": A("fa"), "other_payloads": ["B", "Q"]}, "B": {"struct": "<8s", "fields": A("fb")}},
        {"A": {"struct": "<8s", "fields": A("fa"), "other_payloads": ["B", "Q"]}, "B": {"struct": "<9s", "fields": A("fb"), "other_payloads": ["Q"]}},
        {"P%d" % i: {"struct": ("<9s", "<BbBfH", "<BB7s")[i % 3], "fields": A("f%d" % i), "other_payloads": ["O%d" % i, "HORUS%d" % i] * (i % 3)} for i in range(60)},
        {"A": {"struct": S("a"), "fields": A("fa"), "other_payloads": ["X%d" % i for i in range(80)]}, "B": good},
        {},
    ]
    MAL = [{"A": {"struct": "<9s", "fields": A("f"), "other_payloads": v}, "C": good} for v in (5, None, A("others"), True)]

    def cfl(shape, w, cmp=True):
        def loads(I, a, k):
            I.raise_if(batom("badjson", a[0]), Exc("json.JSONDecodeError"))
            return I.newdict([(k2, entry(I, e)) for k2, e in shape.items()]) if isinstance(shape, dict) else I.newlist([A("el")]) if isinstance(shape, list) else shape
        I = eng(loads)
        d = I.get(PM, "HORUS_CUSTOM_FIELDS")
        before = I.freeze(d)
        t = sym("jsontext", "str")
        a = Act(I, I.get(PM, "parse_custom_field_list"), [t])
        total(a, w)
        untouched(I, a, "HORUS_CUSTOM_FIELDS", before, w)
        if cmp:
            b = Act(I, I.get("ref_payloads", "layouts"), [t, d])
            dicts(a, b, True, "layout-entry", w)
        else:       # malformed list of other payloads: the entries themselves and the following ones still load
            for k in ("A", "C"):
                p.same(a.at(lambda: present(a.item(k))), True, and_(a.pc, not_(batom("badjson", t))), "layout-entry", "%s: entry %s" % (w, k))
    for i, s in enumerate(SHAPES): p.run("custom fields %d" % i, lambda: cfl(s, "custom field list %s" % desc(s)))
    for i, s in enumerate(MAL): p.run("custom fields mal %d" % i, lambda: cfl(s, "custom field list %s" % desc(s), False))
    for s in (5, None, "text", True, 1.5, [1]): p.run("custom fields %s" % show(s), lambda: cfl(s, "custom field document %s" % show(s)))

    def anydoc():
        I = p.engine(unroll=1)
        I.load(PM)
        a = Act(I, I.get(PM, "parse_custom_field_list"), [sym("jsontext", "str")])
        total(a, "custom field list, arbitrary document")
    p.run("custom fields, arbitrary document", anydoc)

    # ---- files and downloads: an unknown parser, every failure
    for kind, parse, read_, down, init, glob, mark in (("payload list", "parse_payload_list", "read_payload_list", "download_latest_payload_id_list", "init_payload_id_list", "HORUS_PAYLOAD_LIST", "HORUS BINARY PAYLOAD ID LIST"),
                                                   ("custom fields", "parse_custom_field_list", "read_custom_field_list", "download_latest_custom_field_list", "init_custom_field_list", "HORUS_CUSTOM_FIELDS", "HORUSTEST")):
        def parsed(I, a, k):
            return I.newdict([("parsed", a[0])])

        def mk_engine():
            I = eng()
            I.models[PM + "." + parse] = parsed
            return I

        def files(I):
            """open/read/write/close of the caller's file and of any other file, failing or not."""
            def fopen(I, a, k):
                own = any(x is UF or isinstance(x, T) and x == UF for x in a[:1])
                n = "given" if own else "packaged"
                I.effect("open", n, a[1] if len(a) > 1 else k.get("mode", "r"))
                I.raise_if(cond(sym(n + " file open fails", "bool")), Exc("OSError", "open"))
                return mk("file", n, ty="ext")
            def fread(I, x, a, k):
                I.raise_if(cond(sym(x.args[0] + " file read fails", "bool")), Exc("*ext", "read"))
                t = sym(x.args[0] + " file text", "str")
                size = a[0] if a else k.get("size", -1)
                return t if size is None or isinstance(size, int) and size < 0 else mk("slice", t, 0, size, ty="str")
            def fwrite(I, x, a, k):
                I.effect("write", x.args[0], a[0])
                I.raise_if(cond(sym(x.args[0] + " file write fails", "bool")), Exc("OSError", "write"))
                return I.unk("n", "int")
            I.ext["open"], I.ext["method:file.read"], I.ext["method:file.write"] = fopen, fread, fwrite
        UF = sym("filename", "str")
        P = lambda n: cond(sym(n, "bool"))

        def reading():
            I = mk_engine()
            files(I)
            w = "%s(filename)" % read_
            before = I.freeze(I.get(PM, glob))
            a = Act(I, I.get(PM, read_), [UF])
            total(a, w)
            untouched(I, a, glob, before, w)
            ok = lambda n: and_(not_(P(n + " file open fails")), not_(P(n + " file read fails")))
            text = lambda n: I.freeze(parsed(I, [sym(n + " file text", "str")], {}))
            p.same(a.frozen(), ite(ok("given"), text("given"), ite(ok("packaged"), text("packaged"), before)), a.pc, "file-or-fallback", w)

        def downloading():
            for fn in (None, UF):
                I = mk_engine()
                files(I)
                w = "%s(filename=%s)" % (down, "None" if fn is None else "given")
                before = I.freeze(I.get(PM, glob))
                a = Act(I, I.get(PM, down), [], {"filename": fn})
                b = Act(I, I.get("ref_payloads", "downloaded"), [sym("url", "str"), mark, I.get(PM, parse)])
                total(a, w)
                untouched(I, a, glob, before, w)
                p.same(a.frozen(), b.frozen(), a.pc, "download-result", w)
                for g, e in a.effects("write"): p.same(e[2], b.at(lambda: I.freeze(I.getattr(mk("response", 1, ty="ext"), "text"))), g, "saved-text", w)

        def initing():
            for nod in (True, False):
                I = mk_engine()
                calls = {}
                def dl(I, a, k):
                    I.effect("download", tuple(a), tuple(sorted(k)))
                    return ite(cond(sym("download ok", "bool")), DL, None)
                def rd(I, a, k):
                    I.effect("readlocal", k.get("filename", a[0] if a else None))
                    return RD
                DL, RD = I.newdict([("D", 1)]), I.newdict([("R", 1)])
                I.models[PM + "." + down] = dl
                I.models[PM + "." + read_] = rd
                w = "%s(nodownload=%s)" % (init, nod)
                a = Act(I, I.get(PM, init), [], {"filename": sym("filename", "str"), "nodownload": nod})
                total(a, w)
                ok = cond(sym("download ok", "bool"))
                want = RD if nod else ite(ok, DL, RD)
                p.same(a.at(lambda: I.freeze(a.ret)), a.at(lambda: I.freeze(want)), a.pc, "chosen-list", w)
                dls = False
                for g, e in a.effects("download"): dls = or_(dls, g)
                p.same(dls, not nod, True, "download-attempted", w)
                for g, e in a.effects("readlocal"): p.same(e[1], sym("filename", "str"), g, "local-file", w)
        p.run(kind + " read", reading)
        p.run(kind + " download", downloading)
        p.run(kind + " init", initing)
    return p.finish({"rule": "payload list / custom field results equal the reference entry by entry, no exception on any path, module defaults never modified; download failures give None and then the local list", "custom_field_shapes": len(SHAPES) + len(MAL), "line_pairs": len(LINES) ** 2})


def desc(s): return "{" + ", ".join("%s: %s" % (k, "{" + ", ".join("%s: %s" % (a, show(b) if not isinstance(b, list) else b) for a, b in v.items()) + "}" if isinstance(v, dict) else show(v)) for k, v in s.items()) + "}"


pymain(run)
