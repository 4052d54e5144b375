"""Scenario builders shared by the decoder checks."""
from pylib import *


def packet(n, tag="packet"):
    if n == 0: return b""
    d = sym("%s%d" % (tag, n), "bytes")
    LEN[d] = n
    return d


def hexup(d): return d.hex().upper() if isinstance(d, bytes) else mk("hex", d, "u", ty="str")


IDS = sym("payload_ids", "dictT")
IP.VALTY[IDS] = "str"


def minimal(I, a, k):
    """Schema-shaped decode result with the mandatory fields only."""
    I.raise_if(cond(sym("asn1 decode error", "bool")), Exc("asn1tools.DecodeError"))
    i = lambda n, lo, hi: sym("v3." + n, "int", (lo, hi))
    return I.newdict([("payloadCallsign", sym("v3.payloadCallsign", "str")), ("sequenceNumber", i("sequenceNumber", 0, 65535)), ("timeOfDaySeconds", i("timeOfDaySeconds", -1, 86400)),
                      ("latitude", i("latitude", -9000000, 9000000)), ("longitude", i("longitude", -18000000, 18000000)), ("altitudeMeters", i("altitudeMeters", -1000, 50000))])


def decoder_engine(p, asn=None, layouts=None):
    I = p.engine()
    I.load("horusdemodlib.decoder")
    for m in ("ref_crc", "ref_packets"): I.load(m)
    I.ext["ASN1.decode"] = minimal if asn == "minimal" else asn
    ids = I.alloc(Rec("dict", m={}, base=IDS))
    setg(I, "HORUS_PAYLOAD_LIST", ids)
    I.ids = ids
    if layouts is not None:
        I.layouts = I.M.lift(I, layouts)
        setg(I, "HORUS_CUSTOM_FIELDS", I.layouts)
    else: I.layouts = I.get("horusdemodlib.payloads", "HORUS_CUSTOM_FIELDS")
    return I


def setg(I, name, v):
    I.own(I.modules["horusdemodlib.payloads"]).m[name] = (name, v)
