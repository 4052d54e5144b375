"""Text sentences are accepted only with a valid CRC and plausible fields."""
import binascii, itertools
from pylib import *

DM = "horusdemodlib.decoder"


def crc(t): return "%04X" % binascii.crc_hqx(t.encode("ascii", "replace"), 0xFFFF)
def full(t, pre="$$", post=""): return pre + t + "*" + crc(t) + post


FIELDS = [
    ["HORUS", "", " x ", "A B"],
    ["4", "0", "-1", "1.5", "", "x", " 7 ", "65536", "1_0", "+3"],
    ["07:24:17", "072417", "24:00:00", "23:59:59", "12:60:00", "12:00:60", "1:2:3", "", "abc", "7:24", "07:24:17.5", "7241", "0724175", "12:34:56:78", " 01:02:03"],
    ["-34.5", "0", "91", "nan", "inf", "-inf", "NaN", "", "x", "1e400", "1e3", " 5.25 ", "-0.0", "infinity"],
    ["138.6", "0.0", "181", "nan", "-inf", "inf", "", "E138", "1_0.5"],
    ["1000", "0", "-1", "65535", "65536", "1000.5", "", "x", "nan", "00012"],
    None, ["", "1,2,3", ",", "x"],
]
GOOD = ["HORUS", "4", "07:24:17", "-34.5", "138.6123456789", "1000"]
assert any(c in "ABCDEF" for c in "%04X" % binascii.crc_hqx(",".join(GOOD).encode(), 0xFFFF))


def sentences():
    out = []
    def add(t, **k): out.append(full(t, **k))
    for i in range(6):
        for v in FIELDS[i]:
            f = list(GOOD)
            f[i] = v
            add(",".join(f))
            add(",".join(f + ["a", "b"]))
    for a, b in itertools.product(FIELDS[3], FIELDS[4]): add(",".join(GOOD[:3] + [a, b, "0"]))
    for n in range(6): add(",".join(GOOD[:n]))
    for e in FIELDS[7]: add(",".join(GOOD) + "," + e)
    g = ",".join(GOOD)
    for pre in ("", "$", "$$", "$$$$$", " $$", "garbage$$", "$$OTHER*1234$$", "$$$ $", "\n$$", "x*FFFF$"): add(g, pre=pre)
    for post in ("\n", "\r\n", " ", "*", "*X", "*" + crc(g), "0", "x"): add(g, post=post)
    c = crc(g)
    for bad in (c.lower(), c[:3], c + "0", "0" + c, "", "0000", "FFFF", "%04X" % (int(c, 16) ^ 1), "%04X" % (int(c, 16) ^ 0x8000), c[2:] + c[:2], " " + c, c + " ,", "0x" + c): out.append("$$" + g + "*" + bad)
    # sentences whose CRC starts with zeros, and text changed after the CRC was computed
    k = 0
    for i in range(20000):
        t = "H%d," % i + ",".join(GOOD[1:])
        if crc(t)[0] == "0":
            out.append(full(t))
            out.append("$$" + t + "*" + crc(t).lstrip("0"))
            k += 1
            if k == 3: break
    out += ["$$" + g + "$*" + c, "$$" + g.replace("4,", "5,", 1) + "*" + c, "$$" + g + " *" + c, "$$ " + g + "*" + c, "$$" + g, "$$", "", "*", "**", "$*", "$$*" + crc(""), "*FFFF", "$", "\u20ac", full(g.replace("HORUS", "H\u20acRUS"))]
    return out


def run():
    S = sym("sentence", "str")
    TABLE = sentences()
    p = PyCheck("P27", pools={S: TABLE, mk("strip", S, ty="str"): TABLE}, tries=2000, assumptions=["the argument is text or bytes"])

    def compare(arg, w):
        I = p.engines[0] if p.engines else p.engine()
        I.load(DM); I.load("ref_rtty")
        a = Act(I, I.get(DM, "parse_ukhas_string"), [arg])
        b = Act(I, I.get("ref_rtty", "parsed"), [arg])
        p.same(a.outcome(), b.outcome(), True, "accepted-or-ValueError", w)
        both = and_(a.pc, b.pc)
        if both is False: return
        for k in b.keys(): p.same(a.item(k), b.item(k), both, "field", "%s: %s" % (w, show(k)))
        for k in a.keys():
            if key(k) not in {key(x) for x in b.keys()} and k in ("speed", "heading", "temperature", "satellites", "battery_voltage", "vel_v", "custom_field_names"):
                p.same(a.item(k), ABSENT, both, "field", "%s: %s" % (w, show(k)))

    p.run("any text", lambda: compare(S, "any text"))
    def table():
        for t in TABLE: compare(t, "sentence %r" % t)
    p.run("table", table)
    def asbytes():
        for t in TABLE[::7] + ["\u20ac"]: compare(t.encode("utf-8"), "bytes %r" % t)
    p.run("bytes", asbytes)
    return p.finish({"rule": "parse_ukhas_string accepts exactly the sentences the reference accepts, with the same fields, and raises only ValueError otherwise: for one symbolic sentence, and for a table of %d sentences covering each field, the CRC digits and the framing" % len(TABLE)})


pymain(run)
