"""One CRC definition, in the C library and in the Python package."""
from pylib import *

RULES = {"crc-definition", "crc-returns"}


def run():
    p = PyCheck("P04", assumptions=["binascii.crc_hqx is CRC-16-CCITT (documented library function); byte strings of every length and content are covered by one symbolic value"])
    c = p.ck
    ll = c.ir(["horus_l2.c"])
    c.irabs([["crc", "sizes=0-126"] + ll] if not THOROUGH else [["crc", "sizes=%d-%d" % (a, min(a + 31, 400))] + ll for a in range(0, 400, 32)], only=RULES, alarms=False)

    def py():
        I = p.engine()
        I.load("horusdemodlib.checksums"); I.load("ref_crc")
        g = lambda n: I.get("horusdemodlib.checksums", n)
        r = lambda n: I.get("ref_crc", n)
        d = sym("data", "bytes")
        names = ["crc16", "CRC16", "crc16-ccitt", "CRC16-CCITT", "crc32", "", "CRC-16", "xor", sym("checksum", "str")]
        for n in names:
            for tail in (True, False):
                a = Act(I, g("check_packet_crc"), [d], {"checksum": n, "tail": tail})
                b = Act(I, r("check"), [d, n, tail])
                w = "check_packet_crc(checksum=%s, tail=%s)" % (show(n), tail)
                p.same(a.outcome(), b.outcome(), True, "crc-check-outcome", w)
                p.same(a.at(lambda: I.truth(a.ret)) if a.pc is not False else False, b.at(lambda: I.truth(b.ret)) if b.pc is not False else False, and_(a.pc, b.pc), "crc-check-result", w)
                a = Act(I, g("add_packet_crc"), [d], {"checksum": n, "tail": tail})
                b = Act(I, r("add"), [d, n, tail])
                w = "add_packet_crc(checksum=%s, tail=%s)" % (show(n), tail)
                p.same(a.outcome(), b.outcome(), True, "crc-add-outcome", w)
                if a.pc is not False: p.same(a.ret, b.ret, and_(a.pc, b.pc), "crc-placement", w)
                if n == "crc16" and a.pc is not False:
                    ne = ncmp_len(d)
                    q = Act(I, g("check_packet_crc"), [a.ret], {"checksum": n, "tail": tail})
                    p.same(q.outcome(), "return", ne, "crc-roundtrip", w)
                    p.same(q.at(lambda: I.truth(q.ret)), True, and_(q.pc, ne), "crc-roundtrip", w)
        # defaults: CRC-16 at the end
        a = Act(I, g("check_packet_crc"), [d]); b = Act(I, r("check"), [d, "crc16", True])
        p.same(a.outcome(), b.outcome(), True, "crc-default", "check_packet_crc defaults")
        p.same(a.ret, b.ret, and_(a.pc, b.pc), "crc-default", "check_packet_crc defaults")
        a = Act(I, g("add_packet_crc"), [d]); b = Act(I, r("add"), [d, "crc16", True])
        p.same(a.outcome(), b.outcome(), True, "crc-default", "add_packet_crc defaults")
        p.same(a.ret, b.ret, and_(a.pc, b.pc), "crc-default", "add_packet_crc defaults")
        a = Act(I, g("ukhas_crc"), [d]); b = Act(I, r("text"), [d])
        p.same(a.outcome(), b.outcome(), True, "crc-text", "ukhas_crc")
        p.same(a.ret, b.ret, and_(a.pc, b.pc), "crc-text", "ukhas_crc")
    p.run("checksums.py", py)
    return p.finish({"rule": "C: the CRC function computes the reference CRC as an affine function of every input bit, for every listed length; Python: outcome, result and produced bytes of check_packet_crc, add_packet_crc and ukhas_crc equal the reference rule for every byte string; a packet produced with one placement verifies with the same placement"})


def ncmp_len(d): return ops.ncmp(">", ops.length(d), 0)


pymain(run)
