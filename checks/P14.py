"""Packets are accepted only after their CRC verifies."""
from pylib import *
import ref_shapes as RS


def run():
    p = PyCheck("P14", assumptions=["binascii.crc_hqx is CRC-16-CCITT (P04)", "the ASN.1 decoder returns a value of the schema's shape or raises"])
    lens = list(range(0, 41)) + [48, 64, 96, 126, 128] if not THOROUGH else list(range(0, 261))

    def scen(n, earlier=None):
        I = RS.decoder_engine(p, asn="minimal")
        crc = I.get("ref_crc", "check")
        f = I.get("horusdemodlib.decoder", "decode_packet")
        d = RS.packet(n)
        w = "decode_packet, %d bytes" % n + ("" if earlier is None else ", after a packet of %d bytes" % earlier)
        if earlier is not None: I.st = Act(I, f, [RS.packet(earlier, "earlier")]).after()
        def gate(tail):
            g = Act(I, crc, [d, "crc16", tail])
            return g.at(lambda: I.truth(g.ret)) if g.pc is not False else False
        head, end = gate(False), gate(True)
        ok = or_(head, end if n in (16, 22, 32) else False)
        name = ite(head, "Horus Binary v3", {16: "Horus Binary v2", 22: "Horus Binary v1", 32: "Horus Binary v2"}.get(n, ABSENT))
        a = Act(I, f, [d])
        p.never(and_(a.pc, not_(ok)), "accepted-without-crc", w)
        for e, arg, st in a.raises:
            if exc_kind(e) != "ValueError": p.never(and_(st.pc, not_(ok)), "wrong-exception", w, "raises %s" % e)
        if a.pc is False: return
        p.same(a.item("crc_ok"), True, a.pc, "crc-flag", w)
        p.same(a.item("modulation"), name, and_(a.pc, ok), "modulation", w)
        p.same(a.item("raw"), RS.hexup(d), a.pc, "raw-hex", w)
        # a v1/v2 packet with a good CRC is not turned away as a CRC failure: checked through P15's field rules
        b = Act(I, f, [d], {"ignore_crc": True})
        if b.pc is not False:
            p.same(b.item("crc_ok"), ok, b.pc, "crc-flag-ignored-crc", w)
    for n in lens: p.run("length %d" % n, lambda: scen(n))
    for n in (16, 22, 32, 48):
        for e in (16, 22, 32, 48): p.run("length %d after %d" % (n, e), lambda: scen(n, e))

    def fmts(n):
        """Explicitly chosen packet formats obey the CRC gate too."""
        I = RS.decoder_engine(p, asn="minimal")
        crc = I.get("ref_crc", "check")
        f = I.get("horusdemodlib.decoder", "decode_packet")
        tab = I.get("horusdemodlib.decoder", "HORUS_PACKET_FORMATS")
        d = RS.packet(n)
        for k in ("horus_binary_v1", "horus_binary_v2_16byte", "horus_binary_v2_32byte", "horus_binary_v3"):
            v3 = k == "horus_binary_v3"
            g = Act(I, crc, [d, "crc16", not v3])
            ok = g.at(lambda: I.truth(g.ret)) if g.pc is not False else False
            a = Act(I, f, [d, I.getitem(tab, k)])
            w = "decode_packet(packet_format=%s), %d bytes" % (k, n)
            p.never(and_(a.pc, not_(ok)), "accepted-without-crc", w)
            for e, arg, st in a.raises:
                if exc_kind(e) != "ValueError": p.never(and_(st.pc, not_(ok)), "wrong-exception", w, "raises %s" % e)
    for n in (2, 15, 16, 22, 32, 48): p.run("formats %d" % n, lambda: fmts(n))
    return p.finish({"rule": "for every byte string of each listed length: normal return implies the CRC equation (head, or tail with a documented length); every other exit is a ValueError; crc_ok, modulation and raw of the result", "lengths": len(lens)})



pymain(run)
