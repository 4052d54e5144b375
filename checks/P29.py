"""The statistics the demodulators print are complete JSON lines with the values of the block they follow."""
from clirun import *

# what a reader of the statistics gets: field -> value of the modem statistics (constants of the C modem model for block b)
REC = {"EbNodB": lambda b: 3.25 + b, "ppm": lambda b: -12 - b, "f1_est": lambda b: 1000.5 + b, "f2_est": lambda b: 1100.5 + b, "f3_est": lambda b: 1200.5 + b, "f4_est": lambda b: 1300.5 + b,
       "eye_diagram": lambda b: [[0, 0.125], [0.25, 0.375]]}


def c_side(p):
    c = p.ck
    ll = c.ir(["horus_demod.c"])
    jobs = []
    for mode, mfsk in (("binary", 4), ("rtty", 2), ("binary", 2)):
        for opt in (["-t"], ["--stats"], ["-t4000"], ["--stats=4000"], ["-t1"], ["-t0"], ["-t", "-c"], ["-c", "-t4000"], ["-q", "-t4000"], ["-t4000", "--fsk_lower=100", "--fsk_upper=3000"]):
            for g in (0, 1):
                for o in ("-", "out.txt"): jobs.append((["-m", mode] + opt + (["-g"] if g else []) + ["-", o], mfsk, g, o))
    with common.cf.ThreadPoolExecutor(common.NPROC) as ex:
        res = list(ex.map(lambda x: cli(ll, x[0], 3 if THOROUGH else 2, x[1], 8, 1), jobs))
    for (argv, mfsk, g, o), (name, ends, st, err) in zip(jobs, res):
        w = "horus_demod %s (%d tones)" % (name, mfsk)
        if err:
            c.broken.append("irabs cli %s: %s" % (name, err))
            continue
        c.functions.update("src/horus_demod.c:" + f for f in st.get("functions", []))
        c.count("analysis_runs"); c.count("abstract_steps", st.get("steps", 0))
        for e in ends:
            if "alarm" in e or e["exit"] != "0": continue          # P28
            gh = e["ghost"]
            texts = {k[6:]: v for k, v in gh.items() if k.startswith("s:out:")}
            want = [int(x) for x in gh.get("s:stats", "").split()]
            p.ob(bool(want) and want[0] == 1, "statistics-printed", w, "statistics fetched after blocks %s" % want)
            dest = "stdout" if g else "stderr"
            for d in ("stdout", "stderr", "outfile"):
                got = []
                for l in texts.get(d, "").split("\n"):
                    if "{" not in l and "}" not in l: continue
                    try: j = json.loads(l)
                    except ValueError:
                        p.ob(False, "statistics-are-json-lines", w, "%s has the line %s" % (d, l[:200]))
                        continue
                    got.append(j)
                p.ob(not texts.get(d) or d == "stderr" or texts[d].endswith("\n"), "statistics-are-json-lines", w, "%s ends in the middle of a line" % d)
                need = want if d == dest else []
                p.ob(len(got) == len(need), "statistics-printed", w + ", modem results " + gh.get("s:rx", ""), "%d statistics lines on %s instead of %d" % (len(got), d, len(need)))
                for j, b in zip(got, need):
                    for f, v in REC.items():
                        here = f[0] != "f" or int(f[1]) <= mfsk
                        p.ob((j.get(f) == v(b)) if here else f not in j, "statistics-values", "%s, field %s" % (w, f), "%r instead of %r" % (j.get(f), v(b) if here else "none"))
                    p.ob(isinstance(j.get("samp_fft"), list), "statistics-values", w + ", field samp_fft", str(j.get("samp_fft"))[:80])


def run():
    p = PyCheck("P29", assumptions=["statistics are finite numbers", "C: the argument vectors listed in the evidence, two blocks with every modem result; Python: any statistics and results, recordings of three blocks"])

    def py(w, args, mfsk):
        a, M, pos, sizes = pymain_run(p, dict({"input": "-", "output": "-"}, **args), lambda i: ite(atom("packet in block %d" % i), b"41%02X" % i, b""), 50, mfsk=mfsk)
        if not p.same(a.pc, True, True, "statistics-printed", w, str([(n, str(v)[:80]) for n, v, _ in a.raises][:3])): return
        I = a.I
        dest = "stdout" if args.get("g") else "stderr"
        recs, seen = [], {}
        for g, x in a.effects("out"):
            t = x[3]
            if "statsline" not in repr(t): continue
            lf = [(and_(g, c), y) for c, y in leaves(t if not (isinstance(t, tuple) and t[0] == "line") else t[1][0])]
            for c, y in lf:
                whole = isinstance(t, tuple) and t[0] == "line" and len(t[1]) == 1
                if isinstance(y, T) and y.op == "concat" and len(y.args) == 2 and y.args[1] == "\n": y, whole = y.args[0], True
                p.ob(whole and isinstance(y, T) and y.op == "statsline", "statistics-are-json-lines", w, show(y)[:200])
                p.ob(x[1] == dest, "statistics-printed", w, "on %s" % x[1])
                if isinstance(y, T) and y.op == "statsline": recs.append((c, x[2], y.args[0]))
        if "stats" not in args:
            p.ob(not recs, "statistics-printed", w, "%d statistics lines without --stats" % len(recs))
            return
        p.ob(bool(recs) and recs[0][0] is True, "statistics-printed", w, "%d statistics lines" % len(recs))
        for c, i, d in recs:
            m = {}
            for e in d[1:]:
                if isinstance(e, tuple) and len(e) == 2: m[e[0]] = e[1]
            W = "%s, block %d" % (w, i)
            exp = {"EbNodB": M.snr(i), "ppm": sym("ppm %d" % i, "float", (-1e5, 1e5))}
            for q in range(4): exp["f%d_est" % (q + 1)] = sym("f%d %d" % (q, i), "float", (0, 24000)) if q < mfsk else ABSENT
            for f, v in exp.items(): p.same(m.get(f, ABSENT), v, c, "statistics-values", "%s, field %s" % (W, f))
            p.ob("samp_fft" in m and "eye_diagram" in m, "statistics-values", W, "fields %s" % sorted(m))

    for mfsk in (2, 4):
        for g in (False, True):
            for n in (1, 8):
                for c in (False, True): p.run("python", lambda: py("horus_demod.py --stats %d%s%s (%d tones)" % (n, " -g" if g else "", " -c" if c else "", mfsk), {"stats": n, "g": g, "c": c}, mfsk))
            p.run("python", lambda: py("horus_demod.py%s (%d tones)" % (" -g" if g else "", mfsk), {"g": g}, mfsk))
    c_side(p)
    return p.finish({"rule": "every statistics record printed is one line of JSON on standard error (standard output with -g) with SNR, clock offset, tone frequencies and eye diagram as reported after that block"})


pymain(run)
