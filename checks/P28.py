"""The command-line demodulators print each verified packet once, as reported, to the requested output."""
from clirun import *

STATS = re.compile(r"\{[^\n{}]*\}\n")


def c_side(p):
    c = p.ck
    ll = c.ir(["horus_demod.c"])
    nin, blocks = 8, 3
    tests = []
    def t(argv, **kw): tests.append((argv, dict({"mode": 0, "v": 0, "c": 0, "g": 0, "q": 0, "t": 0, "rs": -1, "sp": -1, "lim": None, "inp": "-", "out": "-"}, **kw)))
    for m, v in CMODES.items():
        t(["-m", m, "-", "-"], mode=v)
        t(["--mode=" + m, "-", "-"], mode=v)
    flags = [("v",), ("c",), ("g",), ("q",), ("t",)]
    for n in range(6):
        for s in itertools.combinations("vcgqt", n):
            if n in (2, 3) and not THOROUGH and len(s) and "c" not in s: continue
            for o in ("-", "packets.txt"):
                t(["-m", "binary"] + ["-" + x for x in s] + ["-", o], out=o, **{x: 1 for x in s})
    t(["-m", "RTTY", "-cvq", "in.raw", "out.txt"], mode=90, c=1, v=1, q=1, inp="in.raw", out="out.txt")
    t(["-m", "rtty7n1", "-cg", "--stats=4", "in.raw", "-"], mode=89, c=1, g=1, t=1, inp="in.raw")
    t(["-m", "binary", "-t4000", "-g", "-", "-"], g=1, t=1)
    t(["-m", "binary", "-t4000", "-g", "-c", "-", "o"], g=1, t=1, c=1, out="o")
    t(["-m", "binary", "--rate=50", "--tonespacing=425", "-", "-"], rs=50, sp=425)
    t(["-m", "rtty", "--tonespacing=170", "-c", "-", "-"], mode=90, sp=170, c=1)
    t(["-m", "binary", "--fsk_lower=100", "--fsk_upper=3000", "-", "-"], lim=(100, 3000))
    t(["-m", "binary", "-q", "--fsk_lower=-20000", "--fsk_upper=20000", "-", "-"], q=1, lim=(-20000, 20000))
    t(["-m", "binary", "--fsk_lower=3000", "--fsk_upper=100", "-", "-"])
    t(["-m", "binary", "--fsk_upper=100", "-", "-"])
    jobs = tests
    with common.cf.ThreadPoolExecutor(common.NPROC) as ex:
        res = list(ex.map(lambda x: cli(ll, x[0], blocks, 2 if x[1]["mode"] else 4, nin), jobs))
    for (argv, x), (name, ends, st, err) in zip(jobs, res):
        w = "horus_demod " + name
        if err:
            c.broken.append("irabs cli %s: %s" % (name, err))
            continue
        c.functions.update("src/horus_demod.c:" + f for f in st.get("functions", []))
        c.count("analysis_runs"); c.count("abstract_steps", st.get("steps", 0))
        seen = {}
        for e in ends:
            if "alarm" in e:
                p.ob(False, "memory", w, str(e["alarm"])[:300])
                continue
            g = e["ghost"]
            p.ob(e["exit"] == "0" and g.get("closed", 0) == 1, "ends-normally", w, "ends with status %s, modem closed %s times" % (e["exit"], g.get("closed", 0)))
            rx = g.get("s:rx", "")
            p.ob(len(rx) == blocks, "reads-to-the-end", w, "%d of %d blocks demodulated" % (len(rx), blocks))
            seen[rx] = 1
            want = "".join("%s%s\n" % ("4%d00FF0A" % i if x["mode"] == 0 else "$$H%d%%%%,%%s%%d" % i, ("  CRC OK" if r == "G" else "  CRC BAD") if x["c"] else "") for i, r in enumerate(rx) if r != ".")
            dest = "stdout" if x["out"] == "-" else "outfile"
            texts = {k[6:]: v for k, v in g.items() if k.startswith("s:out:")}
            nst = 0
            if x["g"] and "stdout" in texts:
                nst = len(STATS.findall(texts["stdout"]))
                texts["stdout"] = STATS.sub("", texts["stdout"])
            p.ob(nst == (g.get("stats", 0) if x["g"] else 0) and (g.get("stats", 0) > 0) == bool(x["t"]), "statistics-lines", w, "%d statistics lines on standard output, %d statistics fetched" % (nst, g.get("stats", 0)))
            p.ob(g.get("s:open") in ("%d %d %d " % (x["mode"], x["rs"], x["sp"]), "%d %d %d 48000 48000 " % (x["mode"], x["rs"], x["sp"])), "opens-as-requested", w, "modem opened with %s" % g.get("s:open"))
            p.ob(g.get("verbose", 0) == x["v"], "bad-packets-only-if-verbose", w, "verbose %s" % g.get("verbose"))
            p.ob(g.get("quadrature", 0) == x["q"], "opens-as-requested", w, "quadrature %s" % g.get("quadrature"))
            p.ob(all(int(q) == nin * 2 * (2 if x["q"] else 1) for q in g.get("s:sizes", "").split()), "reads-what-the-modem-asks-for", w, g.get("s:sizes", ""))
            p.ob(g.get("s:from") == ("stdin" if x["inp"] == "-" else "infile") and g.get("s:opened:in", x["inp"] if x["inp"] == "-" else None) == x["inp"], "reads-the-named-input", w, str(g.get("s:from")))
            p.ob(x["out"] == "-" or g.get("s:opened:out") == x["out"], "prints-each-packet", w, "opens %s" % g.get("s:opened:out"))
            lim = g.get("s:limits")
            p.ob((lim is None) == (x["lim"] is None) and (lim is None or tuple(float(q) for q in lim.split()) == x["lim"]), "opens-as-requested", w, "estimator limits %s" % lim)
            if "B" in rx and not x["v"]: continue      # the modem reports unverified packets in verbose mode only (P05, P06)
            for d in sorted(set(texts) | {dest}):
                p.ob(texts.get(d, "") == (want if d == dest else ""), "prints-each-packet", w + ", modem results " + rx, "%s gets %r instead of %r" % (d, texts.get(d, "")[:200], want if d == dest else ""))
        p.ob(len(seen) == 3 ** blocks, "covers", w, "%d of %d modem result sequences reached the end" % (len(seen), 3 ** blocks))
    # nothing is demodulated when the modem cannot be opened or the arguments are wrong
    for argv in (["-m", "nonsense", "-", "-"], ["-m", "binary"], ["-m", "binary", "-"], ["-h"]):
        name, ends, st, err = cli(ll, argv)
        if err: c.broken.append(err); continue
        for e in ends: p.ob("exit" in e and e["exit"] not in ("0", "abort") and not e["ghost"].get("opens") and not any(k.startswith("s:out:") for k in e["ghost"]), "refuses-wrong-arguments", "horus_demod " + name, str(e)[:200])


def run():
    p = PyCheck("P28", assumptions=["command lines from the grid below, recordings of three blocks with every sequence of modem results (C); the modem functions behave as declared in horus_api.h", "in the Python program CRC flag and packets of each block are arbitrary; recordings of up to 120 bytes with blocks of 6 to 10 samples"])

    def main_(w, args, outs, size, nins=(8, 8, 9, 7, 8, 10, 6, 8)):
        a, M, pos, sizes = pymain_run(p, args, outs, size, nins)
        I = a.I
        if not p.same(a.pc, True, True, "ends-normally", w, str([(n_, str(v)[:80]) for n_, v, _ in a.raises][:3]) + str(a.limits[:2])): return
        v, c, q = args.get("v", False), args.get("c", False), args.get("q", False)
        mode = args.get("mode", "binary")
        o = args.get("output", "-")
        dest = "stdout" if o == "-" else o
        texts = {}
        for g, x in a.effects("out"):
            if x[1] == "stderr": continue
            t = x[3]
            if isinstance(t, tuple) and t and t[0] == "line":
                if len(t[1]) == 1 and isinstance(t[1][0], T) and t[1][0].op == "statsline":
                    p.ob(bool(args.get("g")) and x[1] == "stdout", "statistics-lines", w, "statistics on %s" % x[1])
                    continue
                t = I.pure(lambda *z: "%s\n" % " ".join(z), *t[1])
            if isinstance(t, T) and "statsline" in repr(t):
                p.ob(bool(args.get("g")), "statistics-lines", w)
                continue
            texts.setdefault((x[1], x[2]), []).append((g, t))
        blocks = len(a.effects("rx"))
        for d in sorted({k[0] for k in texts} | {dest}):
            for i in range(-1, blocks):
                W = "%s, block %d" % (w, i)
                out = ""
                for g, t in texts.get((d, i), []): out = cat(out, ite(g, t, ""))
                want = ""
                if d == dest and i >= 0:
                    want = ite(packet(I, M, i, mode, v, c), line(I, M, i, mode, c), "")
                p.same(out, want, True, "prints-each-packet", W, d)
        rd_ = a.effects("read")
        p.ob({x[1] for _, x in rd_} == {"stdin" if args.get("input", "-") == "-" else args["input"]}, "reads-the-named-input", w, str(rd_[:1]))
        fo = [x for _, x in a.effects("fopen")]
        exp = [(args[k],) for k in ("input", "output") if args.get(k, "-") != "-"]
        p.ob(sorted(x[1] for x in fo) == sorted(e[0] for e in exp), "reads-the-named-input", w, str(fo))
        p.ob(all(isinstance(s, int) and s > 0 for s, _ in sizes), "reads-what-the-modem-asks-for", w, str(sizes[:3]))
        op = a.effects("open")
        want = (CMODES[mode], args.get("rate", 100), args.get("tonespacing", -1))
        p.ob(len(op) == 1 and tuple(op[0][1][1:4]) == want, "opens-as-requested", w, str(op))
        for g, x in a.effects("rx"): p.same(x[3], int(bool(q)), g, "opens-as-requested", w + ": quadrature")
        l = a.effects("limits")
        lo, hi = args.get("fsk_lower", False), args.get("fsk_upper", False)
        if hi is not False and lo is not False and hi > lo: p.ob(len(l) == 1 and (l[0][1][1], l[0][1][2]) == (lo, hi), "opens-as-requested", w, "limits %s" % l)
        else: p.ob(not l, "opens-as-requested", w, "limits %s" % l)
        p.ob(len(a.effects("close")) == 1, "ends-normally", w, "modem not closed")
        # every whole block of the recording is demodulated
        ch = 2 if q else 1
        frames, rate = size // (2 * ch), args.get("sample_rate", 48000)
        given = frames if rate == 48000 else 0 if frames == 0 else (frames - 1) * 48000 // rate + 1
        i = at = 0
        while at + M.nin(i) <= given: at += M.nin(i); i += 1
        p.ob(blocks == i, "reads-to-the-end", w, "%d of %d blocks demodulated" % (blocks, i))

    def cat(x, y): return p_engine().pure(lambda a, b: a + b if isinstance(a, str) and isinstance(b, str) else concat(a, b), x, y)
    def p_engine():
        if not hasattr(p, "_e"): p._e = p.engine()
        return p._e

    def text(b, mode):
        if mode.lower() == "binary":
            try: return bytes.fromhex(b.decode("ascii")).hex().upper()
            except ValueError: return ""
        try: return b.decode("ascii")
        except ValueError: return ""

    def crc(M, i): return not_(ncmp("==", M.crc(i), 0))
    def packet(I, M, i, mode, v, c):
        some = gmap(lambda b: len(text(b, mode)) > 0, M.out(i))
        return and_(some, True if v else crc(M, i))
    def line(I, M, i, mode, c):
        t = gmap(lambda b: text(b, mode), M.out(i))
        return cat(t, ite(crc(M, i), "  CRC OK\n", "  CRC BAD\n") if c else "\n")

    HEX, RT = b"00FF10AB", b"$$HORUS,1*0000"
    outs = {"hex": [HEX], "mixed": [b"", b"4142", b"", b"", b"4a"], "odd": [b"ABC", b"41"]}
    full, three, two = 112, 50, 32
    gated = lambda i: ite(atom("packet in block %d" % i), b"41%02X" % i, b"")
    gtext = lambda i: ite(atom("packet in block %d" % i), b"$$HORUS,%d*0000" % i, b"")
    for n in range(5):
        for s in itertools.combinations("vcgq", n):
            for o in ("-", "packets.txt"):
                w = "horus_demod.py %s output %s" % (" ".join("-" + x for x in s), o)
                p.run(w, lambda: main_(w, dict({"output": o, "input": "-"}, **{x: True for x in s}), gated, full))
    p.run("text", lambda: main_("horus_demod.py -m rtty -c", {"mode": "rtty", "c": True, "input": "-", "output": "-"}, gtext, full))
    p.run("text", lambda: main_("horus_demod.py -m RTTY8N2 -v", {"mode": "RTTY8N2", "v": True, "input": "-", "output": "-"}, gtext, full))
    for m in CMODES:
        p.run("mode", lambda: main_("horus_demod.py -m %s" % m, {"mode": m, "input": "a.raw", "output": "-"}, [RT] if "b" not in m.lower() else [HEX], three))
    for nm, o in outs.items(): p.run("outputs", lambda: main_("horus_demod.py -c, modem output %s" % nm, {"c": True, "input": "-", "output": "-"}, o, full))
    p.run("options", lambda: main_("horus_demod.py --rate 50 --tonespacing 425", {"rate": 50, "tonespacing": 425, "input": "-", "output": "-"}, [HEX], two))
    p.run("limits", lambda: main_("horus_demod.py -b 100 -u 3000", {"fsk_lower": 100, "fsk_upper": 3000, "input": "-", "output": "-"}, [HEX], two))
    p.run("limits", lambda: main_("horus_demod.py -b 3000 -u 100", {"fsk_lower": 3000, "fsk_upper": 100, "input": "-", "output": "-"}, [HEX], two))
    for g in (False, True): p.run("stats", lambda: main_("horus_demod.py --stats%s" % (" -g" if g else ""), {"stats": 8, "g": g, "c": True, "input": "-", "output": "-"}, gated, three))
    for r in (0, 1, 15, 16, 17, 31, 33, 82, 83) + (tuple(range(60)) if THOROUGH else ()): p.run("size", lambda: main_("horus_demod.py -c, recording of %d bytes" % r, {"c": True, "input": "-", "output": "-"}, gated, r))
    p.run("defaults", lambda: main_("horus_demod.py without arguments", {}, gated, three))
    for rate in (8000, 22050, 44100, 96000):
        for r in (0, 3, 16, 23, 24, 40, 81, 100) + (tuple(range(4, 120, 6)) if THOROUGH else ()):
            p.run("rate", lambda: main_("horus_demod.py --sample-rate %d, recording of %d bytes" % (rate, r), {"sample_rate": rate, "input": "-", "output": "-", "c": True}, gated, r))
    c_side(p)
    return p.finish({"rule": "for every sequence of modem results the text written to the requested output is one line per packet that verified (or any packet if verbose), as reported, with the CRC label if requested"})


pymain(run)
