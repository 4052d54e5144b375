"""Local UDP emission reports the packet and never disturbs the receiver."""
from pylib import *
from ops import batom
from interp import Exc

UM = "horusdemodlib.horusudp"
MAND = ["callsign", "latitude", "longitude", "altitude", "time"]
NUMS = {"latitude": ("float", (-90, 90)), "longitude": ("float", (-180, 180)), "altitude": ("float", (-1000, 65535)), "speed": ("float", (0, 1000)), "satellites": ("int", (0, 255)), "battery_voltage": ("float", (0, 10)),
        "snr": ("float", (-1000, 100)), "f_centre": ("int", (0, 10 ** 10)), "temperature": ("float", (-128, 127)), "heading": ("float", (0, 360)), "sequence_number": ("int", (0, 65535)), "baud_rate": ("int", (0, 10000))}
OPT = ["speed", "satellites", "battery_voltage", "snr", "f_centre"]
OTHER = ["temperature", "heading", "sequence_number", "baud_rate"]
CUSTOM = ["ascent_rate", "ext_temperature", "heading"]


def value(k):
    if k in NUMS: return sym("telem." + k, *NUMS[k])
    return sym("telem." + k, "str")


def run():
    p = PyCheck("P22", pools={value("latitude"): [0.0, -0.0, 1e-9, -34.5, 90.0, 0.00001], value("longitude"): [0.0, -0.0, 1e-9, 138.6, -180.0], value("altitude"): [0.0, 1000.0, -5.0, 12345.678]}, tries=150,
                assumptions=["main scenarios: telemetry values have the types the decoders produce; arbitrary dictionaries are covered for absence of exceptions", "a refused SO_REUSEPORT must not matter; other socket options may only fail together with the whole emission"])

    def eng():
        I = p.engine()
        OPTS = {"SO_BROADCAST": 6, "SO_REUSEADDR": 2, "SO_REUSEPORT": 15}
        for n, v in {**OPTS, "SOL_SOCKET": 1}.items(): I.attrs["socket." + n] = v
        names = {v: n for n, v in OPTS.items()}
        def setopt(I, x, a, k):
            n = names.get(a[1], show(a[1]))
            I.effect("setsockopt", x, n, a[2])
            I.raise_if(cond(mk("sym", "setsockopt %s fails" % n, ty="bool")), Exc("OSError", "setsockopt"))
        I.ext["method:socket.setsockopt"] = setopt
        def opened(I, a, k):
            I.raise_if(cond(mk("sym", "socket() fails", ty="bool")), Exc("OSError", "socket"))
            s = mk("socket", I.seq("socket"), ty="ext")
            I.effect("socket.open", s, tuple(a))
            return s
        I.ext["socket.socket"] = opened
        def sendto(I, x, a, k):
            I.effect("sendto", x, a[0], a[-1])
            host = a[-1][0] if isinstance(a[-1], tuple) else "?"
            I.raise_if(cond(mk("sym", "sendto %s fails" % show(host), ty="bool")), Exc("OSError", "sendto"))
            I.effect("sent", x, a[0], a[-1])
            return I.unk("n", "int")
        I.ext["method:socket.sendto"] = sendto
        I.load(UM); I.load("ref_udp")
        return I

    def atom(n): return cond(mk("sym", n, ty="bool"))
    WORKS = not_(or_(or_(atom("socket() fails"), atom("setsockopt SO_BROADCAST fails")), atom("setsockopt SO_REUSEADDR fails")))
    B_OK = not_(atom("sendto '<broadcast>' fails"))
    L_OK = not_(atom("sendto '127.0.0.1' fails"))

    def payload(x):
        """The object whose JSON text is sent, if it is one."""
        def f(y):
            if isinstance(y, T) and y.op == "encode": y = y.args[0]
            if isinstance(y, T) and y.op == "json.dumps": return y.args[0]
            return y
        return gmap(f, x)

    def deliveries(a, port, w):
        """{host: (condition, message)} of the messages that were sent."""
        out = {}
        for c, e in a.effects("sent"):
            _, s, data, dest = e
            if not (isinstance(dest, tuple) and len(dest) == 2):
                p.ob(False, "destination", w, "sent to %s" % show(dest))
                continue
            p.same(dest[1], port, c, "port", w)
            h = dest[0]
            h = {"255.255.255.255": "<broadcast>", "localhost": "127.0.0.1"}.get(h, h)
            old = out.get(h)
            if old: p.never(and_(c, old[0]), "sent-once", w, "two messages to %s" % h)
            out[h] = (or_(c, old[0]), ite(c, data, old[1])) if old else (c, data)
        return out

    def sends(a, w, port, usable, want, jsonobj):
        p.never(a.raised(), "no-exception", w, "exceptions: " + ", ".join(sorted({str(n) for n, _, _ in a.raises})))
        d = deliveries(a, port, w)
        for h in d: p.ob(h in ("<broadcast>", "127.0.0.1"), "destination", w, "sent to %s" % show(h))
        exp = {"<broadcast>": B_OK, "127.0.0.1": and_(not_(B_OK), L_OK)}
        for h in exp:
            got = d.get(h, (False, None))
            p.same(got[0], and_(usable, exp[h]), WORKS, "sent-exactly-when-usable", "%s, to %s" % (w, h))
            p.never(and_(got[0], not_(usable)), "sent-exactly-when-usable", "%s, to %s" % (w, h))
            if got[0] is False: continue
            if jsonobj is None: p.same(got[1], want, and_(got[0], usable), "content", "%s, to %s" % (w, h))
            else:
                def keys_of(v):
                    r = {}
                    for c, x in leaves(v):
                        if isinstance(x, tuple) and x and x[0] == "dict":
                            for k, vv in x[2:]: r[k] = ite(c, vv, r.get(k, ABSENT))
                        else: r["?"] = ite(c, x, r.get("?", ABSENT))
                    return r
                m, wk = keys_of(payload(got[1])), keys_of(want)
                for k in sorted(set(m) | set(wk), key=str): p.same(m.get(k, ABSENT), wk.get(k, ABSENT), and_(got[0], usable), "content", "%s, to %s: %s" % (w, h, k))
        # the broadcast needs SO_BROADCAST
        bc = False
        for c, e in a.effects("setsockopt"):
            if e[2] == "SO_BROADCAST" and e[3] not in (0, False): bc = or_(bc, c)
        if "<broadcast>" in d: p.never(and_(d["<broadcast>"][0], not_(bc)), "broadcast-enabled", w)

    def telemetry(I, opt, always, names, skip=()):
        prs = [(k, value(k)) for k in MAND if k not in skip] + [(k, value(k)) for k in always]
        prs += [(k, ite(atom("has " + k), value(k), ABSENT)) for k in opt]
        if names is not None: prs += [(c, ite(atom("has " + c), sym("telem." + c, "float", (-1e9, 1e9)), ABSENT)) for c in names if c not in dict(prs)] + [("custom_field_names", I.newlist(list(names)))]
        return I.newdict(prs)

    PORT = sym("port", "int", (1, 65535))

    def summary(w, opt=(), always=(), names=None, skip=(), kw=None, usable=True):
        I = eng()
        t = telemetry(I, opt, always, names, skip)
        before = I.freeze(t)
        kw = {"port": PORT, "comment": sym("comment", "str")} if kw is None else kw
        a = Act(I, I.get(UM, "send_payload_summary"), [t], kw)
        W = "send_payload_summary, " + w
        if skip: sends(a, W, kw.get("port", 55672), False, None, True)
        else:
            b = Act(I, I.get("ref_udp", "summary"), [t, kw.get("comment", "HorusDemodLib")])
            rep = b.at(lambda: not_(gmap(lambda v: v is None, b.ret)))
            sends(a, W, kw.get("port", 55672), rep, b.frozen(), True)
        p.same(a.at(lambda: I.freeze(t)), before, a.pc, "input-unchanged", W)

    p.run("plain", lambda: summary("mandatory fields"))
    p.run("defaults", lambda: summary("mandatory fields, default port and comment", kw={}))
    for k in OPT + OTHER: p.run(k, lambda: summary("with " + k, [k]))
    p.run("all", lambda: summary("optional fields in any combination", OPT))
    p.run("everything", lambda: summary("every field present", (), OPT + OTHER))
    for n in range(len(CUSTOM) + 1): p.run("custom %d" % n, lambda: summary("%d custom fields" % n, [], names=CUSTOM[:n]))
    p.run("custom all", lambda: summary("custom and optional fields in any combination", OPT, names=CUSTOM))
    for k in MAND: p.run("missing " + k, lambda: summary("%s missing" % k, skip=(k,)))

    def odd(f, w, v):
        I = eng()
        t = v(I)
        a = Act(I, I.get(UM, f), [t], {"port": PORT})
        W = "%s, %s" % (f, w)
        p.never(a.raised(), "no-exception", W, "exceptions: " + ", ".join(sorted({str(n) for n, _, _ in a.raises})))
    ODD = {"no dictionary": lambda I: None, "a list": lambda I: I.newlist([1]), "text": lambda I: "x", "empty": lambda I: I.newdict([]), "arbitrary JSON": lambda I: sym("anything", "any"),
           "values of any type": lambda I: I.newdict([(k, sym("any." + k, "any")) for k in MAND + OPT]), "bytes value": lambda I: I.newdict([(k, value(k)) for k in MAND[:-1]] + [("time", sym("b", "bytes"))]),
           "custom fields not a list": lambda I: I.newdict([(k, value(k)) for k in MAND] + [("custom_field_names", 5)])}
    for w, v in ODD.items():
        for f in ("send_payload_summary", "send_ozimux_message"): p.run("%s %s" % (f, w), lambda: odd(f, w, v))

    def ozi(w, skip=(), kw=None):
        I = eng()
        t = telemetry(I, OPT, (), None, skip)
        kw = {"port": PORT} if kw is None else kw
        a = Act(I, I.get(UM, "send_ozimux_message"), [t], kw)
        W = "send_ozimux_message, " + w
        if skip: sends(a, W, kw.get("port", 55683), False, None, None)
        else:
            b = Act(I, I.get("ref_udp", "ozimux"), [t])
            eb = Act(I, I.get("ref_udp", "ascii_bytes"), [b.ret])
            ascii_ = eb.pc
            sends(a, W, kw.get("port", 55683), ascii_, eb.ret, None)
            ok = and_(WORKS, and_(ascii_, or_(B_OK, L_OK)))
            p.same(a.frozen(), ite(ok, b.ret, None), WORKS, "result", W)

    p.run("ozi", lambda: ozi("mandatory fields"))
    p.run("ozi default", lambda: ozi("mandatory fields, default port", kw={}))
    for k in ("latitude", "longitude", "altitude", "time"): p.run("ozi missing " + k, lambda: ozi("%s missing" % k, skip=(k,)))
    return p.finish({"rule": "messages sent (destination, port, every key of the message) equal the reference's for every presence combination and value and every combination of failing socket operations; nothing raises"})


pymain(run)
