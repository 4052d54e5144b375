"""v1/v2 packet fields: position, scaling, limits and text sentence."""
from pylib import *
import ref_shapes as RS

DEFAULT = {"struct": "<hhBHxx", "fields": [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"], ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]}
SKIP = {"packet_format"}


def layouts():
    """Distinct custom layouts: the documented default, one per value type, and every layout of the repository's list."""
    out = [("default", DEFAULT)]
    out.append(("all types", {"struct": "<BhfH", "fields": [["a", "battery_5v_byte"], ["b", "divide_by_10"], ["c", "none"], ["d", "divide_by_100"]]}))
    out.append(("signed", {"struct": "<bihBB", "fields": [["t", "none"], ["i", "none"], ["h", "divide_by_100"], ["u", "none"], ["v", "divide_by_10"]]}))
    out.append(("count mismatch", {"struct": "<hhBHxx", "fields": [["x", "none"]]}))
    out.append(("unknown type", {"struct": "<hhBHxx", "fields": [["x", "nope"], ["y", "none"], ["z", "none"], ["w", "none"]]}))
    out.append(("float as byte", {"struct": "<fBBBBB", "fields": [["x", "battery_5v_byte"], ["y", "none"], ["z", "none"], ["w", "none"], ["v", "none"], ["u", "none"]]}))
    seen = {json.dumps([v["struct"], v["fields"]]) for _, v in out}
    try: j = json.loads(read("custom_field_list.json"))
    except ValueError: j = {}
    for k, v in (j.items() if isinstance(j, dict) else []):
        if isinstance(v, dict) and "struct" in v and "fields" in v and all(isinstance(f, list) and len(f) == 2 for f in v["fields"]):
            s = json.dumps([v["struct"], v["fields"]])
            if s not in seen:
                seen.add(s)
                out.append((k, {"struct": v["struct"], "fields": v["fields"]}))
    return out


def compare(p, I, a, b, w, under=True):
    p.same(a.outcome(), b.outcome(), under, "accept-or-reject", w)
    both = and_(and_(a.pc, b.pc), under)
    if both is False: return
    ks = {key(k): k for k in a.keys() + b.keys()}
    for kk, k in sorted(ks.items(), key=lambda x: repr(x[0])):
        if k in SKIP: continue
        if k == "custom_field_names":
            p.same_members(a.item(k), b.item(k), both, "custom-names", w)
            continue
        p.same(a.item(k), b.item(k), both, "field", "%s: %s" % (w, k if isinstance(k, str) else show(k)))


def run():
    p = PyCheck("P15", assumptions=["payload list values are strings (P19)", "the ASN.1 decoder is not involved: packets whose leading CRC verifies are v3"])

    def scen(n, rname, lname, lay):
        tab = {"4FSKTEST-V2": DEFAULT}
        if lname != "default": tab["SPECIAL"] = lay
        I = RS.decoder_engine(p, asn="minimal", layouts=tab)
        d = RS.packet(n)
        crc = I.get("ref_crc", "check")
        h = Act(I, crc, [d, "crc16", False]); t = Act(I, crc, [d, "crc16", True])
        good = and_(not_(h.at(lambda: I.truth(h.ret))), t.at(lambda: I.truth(t.ret)))
        I.st.pc = good
        a = Act(I, I.get("horusdemodlib.decoder", "decode_packet"), [d])
        b = Act(I, I.get("ref_packets", rname), [d, I.ids, I.layouts])
        compare(p, I, a, b, "decode_packet, %d bytes, custom layout %s" % (n, lname), good)
    def hist(first, n, rname):
        """The same rules for a packet that follows any other packet."""
        I = RS.decoder_engine(p, asn="minimal", layouts={"4FSKTEST-V2": DEFAULT, "SPECIAL": layouts()[1][1]})
        d, crc, f = RS.packet(n), I.get("ref_crc", "check"), I.get("horusdemodlib.decoder", "decode_packet")
        h = Act(I, crc, [d, "crc16", False]); t = Act(I, crc, [d, "crc16", True])
        good = and_(not_(h.at(lambda: I.truth(h.ret))), t.at(lambda: I.truth(t.ret)))
        I.st = Act(I, f, [RS.packet(first, "earlier")]).after()
        I.st.pc = and_(I.st.pc, good)
        a = Act(I, f, [d])
        b = Act(I, I.get("ref_packets", rname), [d, I.ids, I.layouts])
        compare(p, I, a, b, "decode_packet, %d bytes, after a packet of %d bytes" % (n, first), I.st.pc)
    for n, r in ((22, "v1"), (16, "v2_16"), (32, "v2_32")):
        for first in (22, 16, 32, 48): p.run("%d bytes after %d" % (n, first), lambda: hist(first, n, r))
    for n, r in ((22, "v1"), (16, "v2_16")): p.run("%d bytes" % n, lambda: scen(n, r, "default", DEFAULT))
    for lname, lay in layouts(): p.run("32 bytes, " + lname, lambda: scen(32, "v2_32", lname, lay))
    return p.finish({"rule": "for every CRC-valid 22/16/32-byte packet: accepted exactly when the reference accepts, and every key of the result (values and text sentence) equals the reference term", "custom_layouts": len(layouts())})


pymain(run)
