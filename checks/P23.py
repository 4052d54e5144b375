"""No input line stops the telemetry handler, and every valid packet is forwarded."""
from pylib import *
from ops import batom, ncmp
from interp import Exc

UP = "horusdemodlib.uploader"
TEXT, BIN, STAT, JUNK = "text", "binary", "statistics", "junk"


def atom(n): return cond(mk("sym", n, ty="bool"))


def run():
    LINE = sym("line", "str")
    POOL = ["$$HORUS,1*0000", "{}", "{\"EbNodB\":1}", "00ff", "0", "zz", "", "$", "$$", "$1", "\u20ac", "{", " 00", "00 \r", " $$A", "x{", "abcdef0123", "ABcd"]
    p = PyCheck("P23", pools={concat(LINE, "\n"): [x + "\n" for x in POOL], LINE: POOL}, tries=300,
                assumptions=["the configuration file can be read and the log file can be opened at start", "emission, upload and statistics functions do not raise (properties P20, P21, P22, P25, decided there); the decoders may raise any exception"])

    def scenario(w, lines, args=None, end="eof", statistics="model", clock=None, undecodable=False):
        """lines: [(kind, value)]; end: what readline does after the last line."""
        I = p.engine(unroll=len(lines) + 4)
        I.load("ref_uploader")
        n = [0]
        state = {"reconfigured": False, "stats": [], "decodes": {}}

        def readline(I, a, k):
            i = n[0]
            n[0] += 1
            if i >= len(lines):
                if end == "interrupt": I.raise_if(True, Exc("KeyboardInterrupt"))
                return ""
            if undecodable and not state["reconfigured"]: I.raise_if(atom("line %d is not valid text" % i), Exc("UnicodeDecodeError"))
            t, size = lines[i][1], a[0] if a else k.get("size", -1)
            if size is None or isinstance(size, int) and size < 0: return t
            return slice_(t, 0, size) if isinstance(size, int) else t
        I.ext["sys.stdin.readline"] = readline
        def reconf(I, a, k):
            if k.get("errors", "strict") != "strict": state["reconfigured"] = True
        I.ext["sys.stdin.reconfigure"] = reconf
        I.ext["time.time"] = lambda I, a, k: clock(n[0]) if clock else 1e9

        # decoders
        def decoder(which):
            def f(I, a, k):
                x = I.freeze(a[0])
                ds = state["decodes"].setdefault((which, key(x)), [x, 0])
                ds[1] += 1
                nm = "%s %d.%d" % (which, list(state["decodes"]).index((which, key(x))), ds[1])
                I.effect("decode", which, x, I.freeze(I.get("horusdemodlib.payloads", "HORUS_PAYLOAD_LIST")), I.freeze(I.get("horusdemodlib.payloads", "HORUS_CUSTOM_FIELDS")), nlist[0])
                I.raise_if(atom(nm + " raises"), Exc("*ext", nm))
                return decoded(I, nm, which)
            return f
        def decoded(I, nm, which):
            d = [("callsign", ite(atom(nm + " is unknown"), "UNKNOWN_PAYLOAD_ID", "CALL-" + nm) if which == BIN else sym(nm + " callsign", "str")), ("latitude", sym(nm + " lat", "float", (-90, 90)))]
            if which == BIN: d += [("ukhas_str", sym(nm + " ukhas", "str")), ("packet_format", I.newdict([("name", "x")]))]
            return I.newdict(d)
        for m in ("horusdemodlib.decoder", UP):
            I.models[m + ".decode_packet"] = decoder(BIN)
            I.models[m + ".parse_ukhas_string"] = decoder(TEXT)
        I.models["horusdemodlib.horusudp.send_payload_summary"] = lambda I, a, k: I.effect("udp", a[0], a[1] if len(a) > 1 else k.get("port", 55672))
        I.models["horusdemodlib.sondehubamateur.SondehubAmateurUploader.add"] = lambda I, a, k: I.effect("upload", a[1] if len(a) > 1 else k.get("telemetry"))
        I.models["horusdemodlib.sondehubamateur.SondehubAmateurUploader.close"] = lambda I, a, k: I.effect("uploader.close")
        nlist = [0]
        def lists(f):
            def g(I, a, k):
                nlist[0] += 1
                I.effect("lists", f, I.freeze(k.get("filename", a[0] if a else None)))
                return I.newdict([("list", "%s %d" % (f, nlist[0]))])
            return g
        for f in ("init_payload_id_list", "init_custom_field_list", "read_payload_list", "read_custom_field_list"): I.models["horusdemodlib.payloads." + f] = lists(f)
        cfg = {o: sym("cfg." + o, t, *r) for o, t, *r in (("callsign", "str"), ("station_lat", "float", (-90, 90)), ("station_lon", "float", (-180, 180)), ("radio_comment", "str"), ("antenna_comment", "str"), ("ozimux_port", "int"), ("summary_port", "int"))}
        for nm in ("RawConfigParser", "ConfigParser"): I.ext["configparser." + nm] = lambda I, a, k: mk("cfgparser", ty="ext")
        I.ext["method:cfgparser.read"] = lambda I, x, a, k: I.effect("config.read", a[0])
        def option(I, x, a, k):
            if (a[0], a[1]) not in [("user", o) for o in cfg if "port" not in o] + [("horus_udp", o) for o in cfg if "port" in o]: I.raise_if(True, Exc("configparser.NoOptionError"))
            return cfg[a[1]]
        for nm in ("get", "getfloat", "getint"): I.ext["method:cfgparser." + nm] = option
        made = []
        def ctor(I, m): made.append({x: I.freeze(v) for x, v in m.items() if x != "self"})
        I.before["horusdemodlib.sondehubamateur.SondehubAmateurUploader.__init__"] = ctor
        def stat(I, a, k):
            i = len(state["stats"])
            v = {"snr": sym("snr %d" % i, "float", (-100, 100)), "fest_mean": sym("fest_mean %d" % i, "float", (0, 1e6)), "fest_spacing": sym("fest_spacing %d" % i, "float", (-1e6, 1e6))}
            state["stats"].append(I.freeze(a[1]))
            I.effect("stats", a[1])
            for q, x in v.items(): I.setattr(a[0], q, x)
        if statistics == "model": I.models["horusdemodlib.demodstats.FSKDemodStats.update"] = stat
        I.ext["open"] = lambda I, a, k: mk("file", I.seq("file"), "log", ty="ext")
        A = {"log": "telemetry.log", "noupload": False, "rtty": False, "nodownload": True, "freq_hz": None, "freq_target_hz": None, "baud_rate": None, "verbose": False, "config": "user.cfg", "debuglog": "x", "payload_list": "ids.txt", "custom_fields": "fields.json"}
        A.update(args or {})
        I.attrs["argparse"] = dict(A)
        I.load(UP)
        state["decodes"].clear()
        a = Act(I, I.get(UP, "main"), [])
        W = w

        # the handler reaches the end of the input on every path
        p.never(a.raised(), "handler-continues", W, "exceptions: " + ", ".join(sorted({"%s(%s)" % (nm, str(v)[:40]) for nm, v, _ in a.raises})))
        p.same(a.pc, True, True, "handler-continues", W, "handler does not come to the end of its input")
        p.ob(not a.limits, "handler-continues", W, "does not stop at end of input: %s" % [l for l, _ in a.limits][:3])
        if a.pc is False: return
        closes = False
        for c, x in a.effects("uploader.close"): closes = or_(closes, c)
        p.same(closes, True, a.pc, "uploader-closed", W)
        p.ob(any(x[1] == A["config"] for c, x in a.effects("config.read") if c is True), "station-settings", W, "configuration file not read")
        p.ob(len(made) == 1, "station-settings", W, "%d uploaders" % len(made))
        for m in made:
            p.same(m.get("user_callsign", ABSENT), cfg["callsign"], a.pc, "station-settings", W + ": callsign")
            p.same(m.get("user_antenna", ABSENT), cfg["antenna_comment"], a.pc, "station-settings", W + ": antenna")
            if A["freq_target_hz"] is None: p.same(m.get("user_radio", ABSENT), cfg["radio_comment"], a.pc, "station-settings", W + ": radio")
            away = not_(and_(ncmp("==", cfg["station_lat"], 0.0), ncmp("==", cfg["station_lon"], 0.0)))
            pos = m.get("user_position", ABSENT)
            p.same(gmap(lambda x: x is None, pos), not_(away), a.pc, "station-settings", W + ": position left out exactly at 0,0")
            for j, o in ((0, "station_lat"), (1, "station_lon")):
                p.same(gmap(lambda x: elem(x, j), pos), cfg[o], away, "station-settings", W + ": " + o)
        starts = joins = False
        for c, x in a.effects("thread.start"): starts = or_(starts, c)
        for c, x in a.effects("thread.join"): joins = or_(joins, c)
        p.same(starts, not_(A["noupload"]), a.pc, "upload-only-when-enabled", W)
        p.never(and_(starts, not_(joins)), "uploader-closed", W + ": thread joined")
        if statistics != "model": return

        # packets are decoded with the lists read last
        if not A["rtty"]:
            for c, x in a.effects("decode"):
                if x[1] != BIN: continue
                for j, f in ((3, "payload_id_list" if A["nodownload"] is False else "payload_list"), (4, "custom_field_list")):
                    v = x[j]
                    p.same(gmap(lambda y: isinstance(y, tuple) and ("%s" % (dict(y[2:]).get("list"),)).startswith(("init_" if A["nodownload"] is False else "read_") + f), v), True, c, "current-lists", W)
        # expected forwarding, line by line
        want, stats, next_dl = [], 0, 1e9
        R = lambda f, *x: Act(I, I.get("ref_uploader", f), list(x))
        cur = (-999.0, 0.0, 0.0)
        counts = {}
        used, again_at = [], []
        for i, (kd, v) in enumerate(lines):
            now = clock(i + 1) if clock else 1e9
            k = R("kind", v).ret
            isk = lambda q: gmap(lambda x: x == q, k)
            # text
            def occurrence(which, x):
                kk = (which, key(x))
                if kk not in used: used.append(kk)
                counts[kk] = counts.get(kk, 0) + 1
                return kk
            def name(kk): return "%s %d.%d" % (kk[0], list(state["decodes"]).index(kk) if kk in state["decodes"] else -1, counts[kk])
            c = isk("text")
            if c is not False and feasible(c):
                nm = name(occurrence(TEXT, stripped(I, R, v)))
                okc = and_(c, not_(atom(nm + " raises")))
                d = R("annotated", decoded(I, nm, TEXT), cur[0], cur[1], cur[2], A["freq_hz"], A["baud_rate"])
                want.append((okc, d.frozen(), R("logged", v).ret))
            c = isk("binary")
            if c is not False and feasible(c):
                b = R("contents", v)
                ok = and_(c, b.pc)
                if ok is not False and feasible(ok):
                    kk = occurrence(BIN, b.ret)
                    nm = name(kk)
                    okc = and_(ok, not_(atom(nm + " raises")))
                    again = and_(okc, and_(atom(nm + " is unknown"), IP.gmap1(lambda t: now > t, next_dl))) if A["nodownload"] is False else False
                    d = R("annotated", decoded(I, nm, BIN), cur[0], cur[1], cur[2], A["freq_hz"], A["baud_rate"])
                    if again is not False: want.append((and_(okc, not_(again)), d.frozen(), concat(sym(nm + " ukhas", "str"), "\n")))
                    else: want.append((okc, d.frozen(), concat(sym(nm + " ukhas", "str"), "\n")))
                    if again is not False:
                        counts[kk] += 1
                        nm = name(kk)
                        d = R("annotated", decoded(I, nm, BIN), cur[0], cur[1], cur[2], A["freq_hz"], A["baud_rate"])
                        want.append((and_(again, not_(atom(nm + " raises"))), d.frozen(), concat(sym(nm + " ukhas", "str"), "\n")))
                        again_at.append((again, now))
                        next_dl = ite(again, now + 1800, next_dl)
            c = isk("statistics")
            if c is True:
                cur = tuple(sym("%s %d" % (q, stats), "float", r) for q, r in (("snr", (-100, 100)), ("fest_mean", (0, 1e6)), ("fest_spacing", (-1e6, 1e6))))
                stats += 1

        if A["nodownload"] is False:
            got = a.effects("lists")
            start = {x[1] for c, x in got if c is True}
            later = [(c, x) for c, x in got if c is not True]
            p.ob(A["rtty"] or start >= {"init_payload_id_list", "init_custom_field_list"}, "downloads", W + ": lists fetched at start")
            for f in ("init_payload_id_list", "init_custom_field_list"):
                any_got, any_want = False, False
                for c, x in later:
                    if x[1] == f: any_got = or_(any_got, c)
                for c, t in again_at: any_want = or_(any_want, c)
                p.same(any_got, any_want, True, "downloads", W + ": " + f + " again")
        def events(kind, pos):
            out = []
            for c, x in a.effects(kind): out.append((c, x[pos], x))
            return out
        given = [x for kd, x in lines if kd == STAT]
        p.ob(len(given) == len(state["stats"]) or any(kd == "any" for kd, _ in lines), "statistics", W, "%d of %d statistics lines used" % (len(state["stats"]), len(given)))
        for x, y in zip(given, state["stats"]): p.same(stripped(I, R, y), stripped(I, R, x), True, "statistics", W)
        udp, upl, wr = events("udp", 1), events("upload", 1), events("file.write", 2)
        for c, d, x in udp: p.same(x[2], cfg["summary_port"], c, "forwarded", W + ": UDP port")
        match(udp, [(c, d) for c, d, l in want], "forwarded", W + ", to UDP")
        match(upl, [(c, d) for c, d, l in want], "forwarded", W + ", to the uploader")
        if A["log"] != "none": match(wr, [(c, l) for c, d, l in want], "logged", W + ", to the log")
        else: p.ob(not wr, "logged", W)

    def elem(x, j):
        if isinstance(x, tuple) and x and x[0] == "list" and len(x) > j + 1: return x[j + 1][1]
        if isinstance(x, tuple) and x and x[0] != "list" and len(x) > j: return x[j]
        return ABSENT

    def stripped(I, R, v): return Act(I, I.get("ref_uploader", "text_of"), [v]).ret

    def named(evs):
        """Events merged per packet or sentence they carry: {name: [condition, content]}, in order of first appearance."""
        out = {}
        for c, x, *_ in evs:
            for g, y in leaves(x):
                cc = and_(c, g)
                if cc is False or not feasible(cc): continue
                if isinstance(y, tuple) and y and y[0] == "dict": n = names(dict(y[2:]).get("latitude", dict(y[2:]).get("callsign")))
                else: n = key(y)
                if n in out: out[n] = [or_(out[n][0], cc), ite(cc, y, out[n][1])]
                else: out[n] = [cc, y]
        return out

    def names(v):
        for c, x in leaves(v):
            if isinstance(x, T) and x.op == "sym": return x.args[0].rsplit(" ", 1)[0]
        return show(v)

    def match(got, want, rule, w):
        """The same events in the same order."""
        g, e = named(got), named(want)
        go = list(g)
        wrong = [(a, b) for i, a in enumerate(e) for b in list(e)[i + 1:] if a in g and b in g and go.index(b) < go.index(a) and feasible(and_(g[a][0], g[b][0]))]
        p.ob(not wrong, rule, w + ": order", "second before first: %s" % wrong[:3])
        for n in list(e) + [n for n in g if n not in e]:
            gc, gx = g.get(n, (False, None))
            wc, wx = e.get(n, (False, None))
            W = "%s: %s" % (w, n if isinstance(n, str) else show(wx if n in e else gx))
            p.same(gc, wc, True, rule, W)
            both = and_(gc, wc)
            if both is False: continue
            gk, wk = entries(gx), entries(wx)
            for k in sorted(set(gk) | set(wk), key=str): p.same(gk.get(k, ABSENT), wk.get(k, ABSENT), both, rule + "-content", "%s: %s" % (W, k))

    def entries(v):
        r = {}
        for c, x in leaves(v):
            if isinstance(x, tuple) and x and x[0] == "dict":
                for k, vv in x[2:]: r[k] = ite(c, vv, r.get(k, ABSENT))
            else: r["value"] = ite(c, x, r.get("value", ABSENT))
        return r

    RT = lambda i: concat("$$", sym("sentence %d" % i, "str"), "\n")
    ST = lambda i: concat("{", sym("stats %d" % i, "str"), "\n")
    Tx, B, S = (lambda i: (TEXT, RT(i))), (lambda i: (BIN, "%02x55aa\n" % i)), (lambda i: (STAT, ST(i)))
    J = [(JUNK, x) for x in ("zz\n", "abc\n", "\n", "hello world\n", "0x00\n", "\u20ac\n", "  \n", "00 zz\n", "$\n", "[]\n", "-\n")]
    ANY = {"log": ite(atom("args.log none"), "none", "telemetry.log")}
    p.run("any line", lambda: scenario("one arbitrary line", [("any", concat(LINE, "\n"))]))
    p.run("one text", lambda: scenario("one sentence", [Tx(0)]))
    p.run("one binary", lambda: scenario("one packet", [B(0)]))
    p.run("stats then", lambda: scenario("statistics, sentence, packet", [S(0), Tx(0), B(0)], {"freq_hz": sym("args.freq_hz", "float", (1, 1e10)), "baud_rate": sym("args.baud_rate", "int", (1, 10000))}))
    p.run("stats between", lambda: scenario("packet, statistics, packet, statistics, sentence", [B(0), S(0), B(1), S(1), Tx(0)], {"freq_hz": sym("args.freq_hz", "float", (1, 1e10))}))
    p.run("optional", lambda: scenario("frequency and rate options in any combination", [S(0), B(0), Tx(0)], {"freq_hz": ite(atom("freq given"), sym("args.freq_hz", "float", (0, 1e10)), None), "baud_rate": ite(atom("baud given"), sym("args.baud_rate", "int", (0, 10000)), None)}))
    p.run("failures", lambda: scenario("sentence, packet, sentence, packet", [Tx(0), B(0), Tx(1), B(1)]))
    for j in J: p.run("junk %r" % j[1], lambda: scenario("undecodable line %r between good ones" % j[1], [B(0), j, Tx(0), j, B(1)]))
    p.run("many", lambda: scenario("many lines", [(S, Tx, B, S, B)[i % 5](i) for i in range(40)] + [J[0]] * 60 + [B(90), Tx(91), S(92), B(93)]))
    Lb, Lt, Ls = (BIN, "5a" * 128 + "\n"), (TEXT, "$$" + "HORUS,1,2,3," * 60 + "*0123\n"), (STAT, '{"EbNodB": 1, "samp_fft": [' + "0.125," * 2000 + "1]}\n")
    p.run("long", lambda: scenario("long lines", [Ls, Lt, Lb, (JUNK, "junk " * 1000 + "\n"), Lb, Lt, Ls, B(1)]))
    p.run("repeat", lambda: scenario("the same packet twice", [B(0), B(0)]))
    p.run("no log", lambda: scenario("no log file", [Tx(0), B(0)], {"log": "none"}))
    p.run("no upload", lambda: scenario("upload switched off", [Tx(0), B(0)], {"noupload": True}))
    p.run("verbose", lambda: scenario("verbose", [Tx(0), B(0), S(0)], {"verbose": True, "freq_target_hz": sym("args.target", "float", (1, 1e10))}))
    p.run("interrupt", lambda: scenario("interrupt", [Tx(0), B(0)], end="interrupt"))
    p.run("interrupt first", lambda: scenario("interrupt before any input", [], end="interrupt", args={"noupload": True}))
    p.run("eof", lambda: scenario("no input", []))
    p.run("undecodable", lambda: scenario("bytes that are not valid text", [B(0), Tx(0), B(1)], undecodable=True))
    p.run("download", lambda: scenario("unknown payload, lists downloaded again", [B(0), B(1), B(2), B(3)], {"nodownload": False}, clock=lambda i: 1e9 + 1000 * i))
    p.run("download off", lambda: scenario("unknown payload, downloads off", [B(0), B(1)], clock=lambda i: 1e9 + 1000 * i))
    p.run("rtty", lambda: scenario("text only mode", [Tx(0), B(0)], {"rtty": True, "nodownload": False}, clock=lambda i: 1e9 + 1000 * i))
    p.run("real stats", lambda: scenario("arbitrary statistics, real statistics code", [S(0), B(0), S(1), Tx(0)], statistics="real"))
    return p.finish({"rule": "on every path the main loop comes to the end of its input without an exception; the telemetry handed to UDP, uploader and log per line equals the decoded packet plus SNR, frequency, spacing and baud rate as the reference attaches them, exactly for the lines that decode"})


pymain(run)
