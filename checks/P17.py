"""The v2 encoder clips every field and lays the packet out as documented."""
from pylib import *

INTS = ["sequence_number", "hours", "minutes", "seconds", "altitude", "speed", "satellites", "temperature", "ext_humidity"]
FLOATS = ["latitude", "longitude", "battery_voltage", "ascent_rate", "ext_temperature", "ext_pressure"]
LAY = {"payload_id": (0, "H"), "sequence_number": (2, "H"), "hours": (4, "B"), "minutes": (5, "B"), "seconds": (6, "B"), "latitude": (7, "f"), "longitude": (11, "f"),
       "altitude": (15, "H"), "speed": (17, "B"), "satellites": (18, "B"), "temperature": (19, "b"), "battery_voltage": (20, "B"), "ascent_rate": (21, "h"),
       "ext_temperature": (23, "h"), "ext_humidity": (25, "B"), "ext_pressure": (26, "H")}


def run():
    p = PyCheck("P17", assumptions=["numeric arguments are finite; coordinates fit single precision"])

    def eng():
        I = p.engine()
        I.load("horusdemodlib.encoder"); I.load("ref_encode")
        e = Act(I, I.get("horusdemodlib.encoder", "Encoder"), [])
        I.st = e.st
        return I, I.getattr(e.ret, "create_horus_v2_packet"), e.ret

    def args(kind, tag=""):
        big = (-1e9, 1e9)
        a = {}
        for n in INTS: a[n] = sym(n + tag, "int" if kind == "int" else "float", big)
        for n in FLOATS: a[n] = sym(n + tag, "int" if kind == "int" and n not in ("latitude", "longitude") else "float", big)
        a["payload_id"] = sym("payload_id" + tag, "int", (-100000, 100000))
        return a

    def check(I, act, ref, w, extra=()):
        pid = ref["payload_id"]
        valid = and_(ops.compare(">=", pid, 256), ops.compare("<=", pid, 65535))
        p.same(act.outcome(), ite(valid, "return", "ValueError"), True, "accept-or-reject", w)
        if act.pc is False: return
        a = I.newdict(list(ref.items()))
        rf = lambda n, *x: Act(I, I.get("ref_encode", n), list(x))
        under = and_(act.pc, valid)
        for n, (off, ch) in LAY.items():
            if n in extra: continue
            I.st = act.st
            got = rf("raw", act.ret, off, ch)
            want = rf("get", I.newdict(list(ref.items())), n)
            p.same(act.at(lambda: got.ret), want.ret, and_(under, and_(got.pc, want.pc)), "field", "%s: %s at byte %d" % (w, n, off))
        tail = rf("part", act.ret, 30, None); c = rf("crc", act.ret)
        p.same(tail.ret, c.ret, under, "crc", w)
        if "custom" not in extra:
            pad = rf("part", act.ret, 28, 30)
            p.same(pad.ret, b"\0\0", under, "padding", w)

    def plain(kind):
        I, f, e = eng()
        a = args(kind)
        kw = dict(a); kw["return_uncoded"] = True
        check(I, Act(I, f, [], kw), a, "create_horus_v2_packet(%s arguments)" % kind)

    def fromdt():
        I, f, e = eng()
        a = args("float")
        t = sym("time_dt", "datetime")
        kw = {k: v for k, v in a.items() if k not in ("hours", "minutes", "seconds")}
        kw.update(time_dt=t, return_uncoded=True)
        r = Act(I, f, [], kw)
        tm = Act(I, I.get("ref_encode", "tm"), [t])
        for n in ("hours", "minutes", "seconds"): a[n] = tm.item(n)
        check(I, r, a, "create_horus_v2_packet(time_dt)")

    def custom(n, good):
        I, f, e = eng()
        a = args("float")
        c = sym("custom%d" % n, "bytes"); LEN[c] = n
        kw = dict(a); kw.update(custom_data=c, return_uncoded=True)
        r = Act(I, f, [], kw)
        w = "create_horus_v2_packet(custom_data of %d bytes)" % n
        check(I, r, a, w, ("ascent_rate", "ext_temperature", "ext_humidity", "ext_pressure", "custom") if good else ())
        if good:
            I.st = r.st
            got = Act(I, I.get("ref_encode", "part"), [r.ret, 21, 30])
            p.same(got.ret, c, r.pc, "custom-data", w)

    def coded():
        I, f, e = eng()
        a = args("float")
        kw = dict(a)
        kw["return_uncoded"] = True
        u_ = Act(I, f, [], kw)
        kw["return_uncoded"] = False
        r = Act(I, f, [], kw)
        want = gmap(lambda x: mk("l2_encode", x, ty="bytes") if tyof_bytes(x) else x, u_.ret)
        p.same(r.frozen(), want, and_(u_.pc, r.pc), "transmitted", "create_horus_v2_packet(return_uncoded=False)")
        p.same(r.outcome(), u_.outcome(), True, "accept-or-reject", "create_horus_v2_packet(return_uncoded=False)")
    for k in ("int", "float"): p.run(k, lambda: plain(k))
    p.run("time_dt", fromdt)
    for n in (9, 8, 10, 0): p.run("custom %d" % n, lambda: custom(n, n == 9))
    p.run("coded", coded)
    return p.finish({"rule": "for all finite arguments: result or ValueError by payload ID alone; every field of the packet equals the clipped argument at its documented offset; CRC over bytes 0-29; coded form is the layer-2 encoding of exactly those bytes"})


def tyof_bytes(x): return ops.tyof(x) == "bytes"


pymain(run)
