"""The Python wrapper feeds every sample once, in order, and reports each packet."""
from cffimodel import *
from ops import ncmp

HEX, RT = b"00FF10AB", b"$$HORUS,1*0000"
OUTS = {"hex": [b"00FF10AB"], "none": [b""], "odd": [b"ABC"], "not hex": [b"zz00"], "mixed": [b"", b"4142", b"", b"", b"43"], "lower": [b"ab"], "high": [b"$$\xff\xfe"], "space": [b"$$ A B "]}


def run():
    p = PyCheck("P24", assumptions=["the modem library behaves as declared in horus_api.h: horus_nin gives the number of samples the next horus_rx reads, horus_rx leaves its result in the output buffer up to a zero byte, with anything behind it, status functions report on the last horus_rx",
                                    "audioop.ratecv gives floor((N-1)*out/in)+1 frames for the first N input frames and keeps its position in the state it returns"])

    def feed(w, nins, chunks, mode="BINARY", stereo=False, rate=48000, outs=None, callback=True, unroll=60):
        """Adds audio in chunks of the given byte lengths."""
        I = p.engine(unroll=unroll)
        M = Modem(I, nins, outs=outs)
        I.load(D)
        seen = []
        I.ext["test.callback"] = lambda I, a, k: (seen.append((M.n - 1, I.st.pc, {q: I.freeze(I.getattr(a[0], q)) for q in ("data", "sync", "snr", "crc_pass")})), I.effect("callback", M.n - 1))[1]
        S = stream()
        f = I.get(D, "HorusLib")
        mo = I.getattr(I.get(D, "Mode"), mode)
        kw = {"mode": mo, "stereo_iq": stereo, "sample_rate": rate}
        if callback: kw["callback"] = Ext("test.callback")
        def pre():
            h = I.call(f, [], kw)
            pos = 0
            for c in chunks:
                I.call(I.getattr(h, "add_samples"), [slice_(S, pos, pos + c) if c else b""], {})
                pos += c
        a = Act(I, Ext("test.nothing"), [], pre=pre)
        ok = p.same(a.pc, True, True, "no-exception", w, str([(n, v) for n, v, _ in a.raises][:2]) + str(a.limits[:1]))
        if not ok: return
        ch = 2 if stereo else 1
        total = sum(chunks)
        frames = total // (2 * ch)
        given = frames if rate == 48000 else 0 if frames == 0 else (frames - 1) * 48000 // rate + 1
        src = S if rate == 48000 else resampled()
        if rate != 48000:      # every whole frame once and in order through the resampler
            pos = 0
            for c, x in a.effects("resample"):
                d = x[2]
                n = len(d) if isinstance(d, bytes) else ops.length(d)
                p.ob(c is True and x[1] * 2 * ch == pos and x[3] == 2 and x[4] == ch and (n == 0 or same(d, slice_(S, pos, pos + n))), "feeds-once-in-order", w, "resampler gets %s after %d bytes" % (show(d), pos))
                pos += n
            p.ob(pos == frames * 2 * ch, "feeds-once-in-order", w, "resampler got %d of %d bytes" % (pos, frames * 2 * ch))
        want, pos = [], 0
        i = 0
        while pos + M.nin(i) * 2 * ch <= given * 2 * ch:
            want.append((pos, pos + M.nin(i) * 2 * ch))
            pos += M.nin(i) * 2 * ch
            i += 1
        got = a.effects("rx")
        p.ob(len(got) == len(want), "feeds-every-block", w, "%d blocks demodulated instead of %d" % (len(got), len(want)))
        for (c, x), (lo, hi) in zip(got, want):
            p.ob(c is True and same(x[2], slice_(src, lo, hi)), "feeds-once-in-order", w, "block %d is %s instead of bytes %d to %d" % (x[1], show(x[2]), lo, hi))
            p.same(x[3], int(stereo), True, "quadrature-flag", w)
        # callbacks
        exp = {}
        for i in range(len(want)):
            d = gmap(lambda b: expected(b, mode), M.out(i))
            some = gmap(lambda b: len(b) > 0, d)
            if some is not False and feasible(some if callback else False): exp[i] = (some, d)
        calls = {}
        for i, c, v in seen:
            p.ob(i not in calls, "callback-once", w, "called twice for block %d" % i)
            calls[i] = (c, v)
        for i in sorted(set(exp) | set(calls)):
            e, g = exp.get(i, (False, None)), calls.get(i, (False, None))
            W = "%s, block %d" % (w, i)
            p.same(g[0], e[0], True, "callback-per-packet", W)
            if i in exp and i in calls:
                v = g[1]
                p.same(v["data"], e[1], e[0], "packet-data", W)
                p.same(asbool(v["crc_pass"]), asbool(M.crc(i)), e[0], "packet-status", W + ": CRC flag")
                p.same(asbool(v["sync"]), asbool(M.sync(i)), e[0], "packet-status", W + ": sync")
                p.same(v["snr"], M.snr(i), e[0], "packet-status", W + ": SNR")

    def asbool(x): return gmap(lambda y: y if isinstance(y, bool) else y != 0 if isinstance(y, (int, float)) else not_(ncmp("==", y, 0)) if isinstance(y, T) and y.ty != "bool" else y, x)

    def expected(b, mode):
        """What the caller gets for a modem output."""
        if mode.startswith("BINARY"):
            try: return bytes.fromhex(b.decode("ascii"))
            except ValueError: return b""
        try: return b.decode("ascii")
        except ValueError: return ""

    def direct(w, nins, data_len, stereo=False, mode="BINARY", outs=None):
        """demodulate() called directly."""
        I = p.engine(unroll=20)
        M = Modem(I, nins, outs=outs)
        I.load(D)
        S = stream()
        box = {}
        def pre():
            h = I.call(I.get(D, "HorusLib"), [], {"mode": I.getattr(I.get(D, "Mode"), mode), "stereo_iq": stereo})
            r = I.call(I.getattr(h, "demodulate"), [slice_(S, 0, data_len) if data_len else b""], {})
            box.update({q: I.freeze(I.getattr(r, q)) for q in ("data", "sync", "snr", "crc_pass")})
            box["nin"] = I.getattr(h, "nin")
        a = Act(I, Ext("test.nothing"), [], pre=pre)
        if not p.same(a.pc, True, True, "no-exception", w, str([(n, v) for n, v, _ in a.raises][:2])): return
        got = a.effects("rx")
        p.ob(len(got) == 1, "feeds-every-block", w)
        need = nins[0] * 2 * (2 if stereo else 1)
        for c, x in got:
            d = x[2]
            n = len(d) if isinstance(d, bytes) else ops.length(d)
            p.ob(isinstance(n, int) and n >= need, "modem-reads-inside-the-block", w, "%s bytes given, the modem reads %d" % (n, need))
            if isinstance(n, int) and n >= need:
                first = min(need, data_len)
                p.ob(first == 0 or same(slice_(d, 0, first), slice_(S, 0, first)), "feeds-once-in-order", w, show(d))
        p.same(box["data"], gmap(lambda b: expected(b, mode), M.out(0)), True, "packet-data", w)
        p.same(asbool(box["crc_pass"]), asbool(M.crc(0)), True, "packet-status", w)
        p.same(asbool(box["sync"]), asbool(M.sync(0)), True, "packet-status", w)
        p.same(box["snr"], M.snr(0), True, "packet-status", w)
        p.same(box["nin"], nins[1], True, "sample-request", w)

    def opening(w, kw, mode=None, opens=True):
        I = p.engine()
        M = Modem(I, [8], opens=opens)
        I.load(D)
        k = {x: v(I) if callable(v) else v for x, v in kw.items()}
        a = Act(I, I.get(D, "HorusLib"), [], k)
        return I, M, a

    def wrong_modes():
        for what, v in (("number", 0), ("string", "BINARY"), ("None", None), ("float", 1.0)):
            I, M, a = opening("", {"mode": v})
            p.same(a.outcome(), "ValueError", True, "refuses-other-modes", "mode given as " + what)
            p.ob(not a.effects("open") and not any(I2 for n, x, st in a.raises for I2 in a.effects_at(st, "open")), "refuses-other-modes", "modem opened for mode given as " + what)

    def modes():
        for nm, val in (("BINARY", 0), ("BINARY_V1", 0), ("RTTY_7N1", 89), ("RTTY_7N2", 90), ("RTTY", 90), ("RTTY_8N2", 91), ("BINARY_V2", 0)):
            I, M, a = opening("", {"mode": lambda I: I.getattr(I.get(D, "Mode"), nm), "rate": sym("rate", "int"), "tone_spacing": sym("spacing", "int"), "verbose": True})
            w = "mode " + nm
            p.same(a.outcome(), "return", True, "opens", w)
            o = a.effects("open")
            p.ob(len(o) == 1, "opens", w, "opened %d times" % len(o))
            for c, x in o:
                p.same(x[1], val, c, "opens", w + ": mode")
                if len(x) > 3:
                    p.same(x[2], sym("rate", "int"), c, "opens", w + ": rate")
                    p.same(x[3], sym("spacing", "int"), c, "opens", w + ": tone spacing")

    def no_modem():
        I, M, a = opening("", {}, opens=atom("modem opens"))
        p.same(a.pc, atom("modem opens"), True, "fails-when-not-opened", "constructor returns exactly when the modem was opened")
        p.same(a.raised("OSError") if a.raised("OSError") is not False else a.raised("EnvironmentError"), not_(atom("modem opens")), True, "fails-when-not-opened", "error raised")

    def life(w):
        I = p.engine()
        M = Modem(I, [8])
        I.load(D)
        def pre():
            h = I.call(I.get(D, "HorusLib"), [], {})
            e = I.call(I.getattr(h, "__enter__"), [], {})
            I.call(I.getattr(e, "set_estimator_limits"), [sym("low", "float"), sym("high", "float")], {})
            I.call(I.getattr(e, "__exit__"), [None, None, None], {})
        a = Act(I, Ext("test.nothing"), [], pre=pre)
        p.same(a.pc, True, True, "no-exception", w)
        l = a.effects("limits")
        p.ob(len(l) == 1 and same(l[0][1][1], sym("low", "float")) and same(l[0][1][2], sym("high", "float")), "estimator-limits", w, str(l))
        p.ob(len(a.effects("close")) == 1, "closes", w)

    N = [8, 8, 9, 7, 8, 10, 6, 8]
    every = range(0, 60) if THOROUGH else (0, 1, 2, 3, 7, 15, 16, 17, 18, 31, 32, 33, 50)
    for c in every: p.run("blocks of %d" % c, lambda: feed("mono, slices of %d bytes" % c, N, [c] * (6 if c > 8 else 40)))
    p.run("irregular", lambda: feed("irregular slices", N, [1, 0, 3, 16, 5, 40, 2, 2, 2, 64, 1, 1], outs=OUTS["mixed"]))
    p.run("one call", lambda: feed("everything in one call", N, [200], outs=OUTS["mixed"]))
    # many blocks in one call: as a file, or a burst after a pause, gives them
    for nb, sz in ((150, 8), (70, 4000)) + (((600, 8), (300, 4000)) if THOROUGH else ()):
        p.run("large slice", lambda: feed("%d blocks of %d samples in one call" % (nb, sz), [sz], [nb * sz * 2 + 7], outs=lambda i: HEX if i % 50 == 49 else b"", unroll=nb + 10))
    for c in (4, 7, 16, 31, 32, 33, 64, 65): p.run("stereo %d" % c, lambda: feed("IQ, slices of %d bytes" % c, N, [c] * 8, stereo=True, outs=OUTS["mixed"]))
    for rate in (8000, 11025, 22050, 44100, 96000, 192000):
        for c in (32, 33, 100): p.run("rate %d" % rate, lambda: feed("audio at %d Hz, slices of %d bytes" % (rate, c), N, [c] * 5, rate=rate))
        p.run("rate %d IQ" % rate, lambda: feed("IQ at %d Hz" % rate, N, [64, 10, 70, 64], rate=rate, stereo=True))
    for nm, o in OUTS.items():
        for mode in ("BINARY", "RTTY_7N1", "RTTY_7N2", "RTTY_8N2"):
            if "RTTY" not in mode or nm not in ("odd", "not hex"): p.run("output %s" % nm, lambda: feed("modem output %s, mode %s" % (nm, mode), N, [16, 17, 20, 30], mode=mode, outs=o))
    p.run("gated", lambda: feed("modem output present or not", N, [70], outs=lambda i: ite(atom("packet in block %d" % i), HEX, b"")))
    p.run("gated rtty", lambda: feed("text output present or not", N, [70], mode="RTTY", outs=lambda i: ite(atom("packet in block %d" % i), RT, b"")))
    p.run("no callback", lambda: feed("no callback", N, [70], outs=[HEX], callback=False))
    for st in (False, True):
        for n in (0, 1, 10, 15, 16, 17, 31, 32, 33, 40):
            if not (n % (4 if st else 2)): p.run("direct", lambda: direct("demodulate() given %d bytes%s" % (n, " of IQ" if st else ""), N, n, stereo=st, outs=[HEX]))
    for mode in ("BINARY", "RTTY_7N2", "RTTY_8N2", "RTTY_7N1"):
        for nm, o in OUTS.items(): p.run("direct output", lambda: direct("demodulate(), modem output %s, mode %s" % (nm, mode), N, 16, mode=mode, outs=o))
    p.run("wrong modes", wrong_modes)
    p.run("modes", modes)
    p.run("no modem", no_modem)
    p.run("life cycle", lambda: life("estimator limits and closing"))
    return p.finish({"rule": "the blocks given to horus_rx are consecutive, complete slices of the (resampled) audio of exactly the requested length; the callback gets each non-empty result with the status of its own block"})


pymain(run)
