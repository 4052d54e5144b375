"""Modem statistics cover exactly the averaging window and ignore bad records."""
import json as _json
from pylib import *
from ops import batom
from interp import Exc

DM = "horusdemodlib.demodstats"
OUT = ["snr", "ppm", "fest_spacing", "fest", "fest_mean"]


def run():
    p = PyCheck("P25", tries=150, assumptions=["records arrive in time order (the clock does not run backwards)", "numeric fields are finite and below 1e12 in magnitude", "histories of up to four records with any values, longer ones with known times"])

    def num(i, f): return sym("record %d %s" % (i, f), "float", (-1e9, 1e9) if f not in ("EbNodB", "ppm") else (-1e5, 1e5))

    def eng(unroll=24):
        I = p.engine(unroll=unroll)
        I.load(DM); I.load("ref_stats")
        def loads(I, a, k):
            x = a[0]
            if isinstance(x, str):
                try: return MD.lift(I, _json.loads(x))
                except ValueError: I.raise_if(True, Exc("json.JSONDecodeError"))
            return MD.j_loads(I, a, k)
        I.ext["json.loads"] = loads
        return I

    def clock(I, t):
        I.ext["time.time"] = I.ext["time.monotonic"] = lambda I, a, k: t

    def record(I, i, kind=4, fft=None):
        fs = ["EbNodB", "ppm", "f1_est", "f2_est"]
        prs = [(f, num(i, f)) for f in fs] + [("samp_fft", I.newlist([sym("record %d fft" % i, "float")]))]
        if kind == "any": prs += [("f3_est", ite(cond(sym("record %d has f3" % i, "bool")), num(i, "f3_est"), ABSENT)), ("f4_est", ite(cond(sym("record %d has f4" % i, "bool")), num(i, "f4_est"), ABSENT))]
        elif kind == 4: prs += [("f3_est", num(i, "f3_est")), ("f4_est", num(i, "f4_est"))]
        elif kind == 3: prs += [("f3_est", num(i, "f3_est"))]
        return I.newdict(prs)

    def stats(I, window, peak):
        u = Act(I, I.get(DM, "FSKDemodStats"), [], {"averaging_time": window, "peak_hold": peak})
        p.never(u.raised(), "no-exception", "FSKDemodStats()")
        I.st = u.st
        return u.ret

    def outputs(a, o): return {n: a.at(lambda: a.I.freeze(a.I.getattr(o, n))) for n in OUT + ["fft"]}

    def total(a, w): p.never(a.raised(), "no-exception", w, "exceptions: " + ", ".join(sorted({"%s(%s)" % (n, str(v)[:40]) for n, v, _ in a.raises})))

    def agree(a, o, b, w, fft=None):
        got = outputs(a, o)
        for i, n in enumerate(OUT):
            def pick(v, i=i):
                r = None
                for c, x in leaves(v):
                    y = x[i]
                    r = y if r is None else ite(c, y, r)
                return r
            want = b.at(lambda: b.I.freeze(pick(b.ret)))
            x, y = got[n], want
            if n == "fest":
                x, y = seqs(x), seqs(y)
                for k in range(max(len(x), len(y), 4)):
                    p.same(x[k] if k < len(x) else ABSENT, y[k] if k < len(y) else ABSENT, a.pc, "published-" + n, "%s, tone %d" % (w, k + 1))
            else: p.same(x, y, a.pc, "published-" + n, w)
        if fft is not None: p.same(got["fft"], fft, a.pc, "published-fft", w)

    def seqs(v):
        """Elements by position of a (gated) frozen list."""
        out = []
        for c, x in leaves(v):
            el = x[1:] if isinstance(x, tuple) and x and x[0] in ("list", "deque") else tuple((True, y) for y in x) if isinstance(x, tuple) else ()
            for i, (g, e) in enumerate(el):
                while len(out) <= i: out.append(ABSENT)
                out[i] = ite(and_(c, g), e, out[i])
        return out

    def history(n, window, peak, kinds, w, gaps=None):
        I = eng()
        o = stats(I, window, peak)
        t = sym("t0", "float", (1e9, 2e9)) if gaps is None else 1.5e9
        hist = []
        init = Act(I, I.get("ref_stats", "state"), [I.newlist([]), window, peak])
        a = Act(I, I.getattr(o, "update"), [I.newlist([])])
        agree(a, o, init, w + ", before the first record")
        I.st = a.st
        for i in range(n):
            t = t if i == 0 else IP.arithnum("+", t, gaps[i - 1] if gaps else sym("gap %d" % i, "float", (0.0, 100.0)))
            clock(I, t)
            r = record(I, i, kinds[i % len(kinds)])
            a = Act(I, I.getattr(o, "update"), [r])
            W = "%s, record %d" % (w, i + 1)
            total(a, W)
            p.ob(not a.limits, "terminates", W, str([l for l, _ in a.limits]))
            I.st = a.st
            hist.append((t, r))
            b = Act(I, I.get("ref_stats", "state"), [I.newlist(list(hist)), window, peak])
            agree(a, o, b, W, I.freeze(I.dget(I.rec(r), "samp_fft")))

    def backlog(n, gap, after, window, peak, w):
        """Many records (known values, exact sums), then a few after longer gaps."""
        I = eng(unroll=n + 10)
        o = stats(I, window, peak)
        hist, t = [], 1.5e9
        gaps = [gap] * n + list(after)
        for i in range(len(gaps) + 1):
            if i: t += gaps[i - 1]
            clock(I, t)
            r = I.newdict([("EbNodB", ((i * 7) % 32) / 4.0 - 2.0), ("ppm", float((i * 5) % 16 - 8)), ("samp_fft", I.newlist([float(i)]))] + [("f%d_est" % (k + 1), (1000.0 + 16 * (i % 8) * k) * ((i + k) % 9 != 0)) for k in range(4 if i % 13 else 2)])
            a = Act(I, I.getattr(o, "update"), [r])
            W = "%s, record %d" % (w, i + 1)
            total(a, W)
            p.ob(not a.limits, "terminates", W, str([l for l, _ in a.limits]))
            I.st = a.st
            hist.append((t, r))
            if i >= n - 1 or i in (20, 33, 50, 65, 129):
                b = Act(I, I.get("ref_stats", "state"), [I.newlist(list(hist)), window, peak])
                agree(a, o, b, W, I.freeze(I.dget(I.rec(r), "samp_fft")))

    import itertools
    GAPS = (0.0, 0.25, 1.5, 2.0, 3.75, 4.0, 4.25, 8.0)
    for peak in (True, False):
        P = "peak hold" if peak else "mean"
        p.run("history %s" % P, lambda: history(2, sym("window", "float", (0.5, 100.0)), peak, [4], "%s, any two times, any window" % P))
        for kinds, w in (([4], "four tones"), ([2], "two tones"), ([3], "three tones"), (["any"], "tones in any combination")):
            p.run("history2 %s" % P, lambda: history(2, 4.0, peak, kinds, "%s, any two times, %s" % (P, w)))
        def grid():
            for g in itertools.product(GAPS, repeat=2): history(3, 4.0, peak, [4], "%s, three records %s s apart" % (P, g), g)
        p.run("grid %s" % P, grid)
        def grid4():
            for g in itertools.product((0.25, 2.0, 3.75, 4.0) if not THOROUGH else GAPS, repeat=3): history(4, 4.0, peak, [4, 2, 3], "%s, four records with changing tones %s s apart" % (P, g), g)
        p.run("grid4 %s" % P, grid4)
        for n, gap, win in ((80, 0.03125, 4.0), (140, 0.5, 100.0)) + (((300, 0.0, 4.0),) if THOROUGH else ()):
            p.run("backlog %s" % P, lambda: backlog(n, gap, (win * 0.75, win * 0.5, win * 0.125, win, win * 2, 0.25), win, peak, "%s, %d records %s s apart and then pauses" % (P, n, gap)))
        for n in ((8,) if not THOROUGH else (8, 12, 20)):
            p.run("long %s" % P, lambda: history(n, 4.0, peak, [4], "%s, %d records 1 s apart" % (P, n), [1.0] * n))
            p.run("dense %s" % P, lambda: history(n + (2 if peak else 10), 4.0, peak, [4], "%s, %d records 0.25 s apart" % (P, n + (2 if peak else 10)), [0.25] * (n + 10)))
            p.run("long %s" % P, lambda: history(n, 4.0, peak, [4, 4, 2], "%s, %d records in bursts" % (P, n), [0.5, 0.5, 3.5, 1.0, 6.0, 0.0, 0.0, 4.0] * 3))

    # ---- records that must be ignored
    def ignored(w, make, strict=True):
        I = eng()
        o = stats(I, 4.0, True)
        clock(I, 1e9)
        a = Act(I, I.getattr(o, "update"), [record(I, 0)])
        I.st = a.st
        before = outputs(a, o)
        clock(I, 1e9 + 1)
        a = Act(I, I.getattr(o, "update"), [make(I)])
        total(a, w)
        p.same(a.pc, True, True, "returns", w)
        if strict:
            after = outputs(a, o)
            for n in before: p.same(after[n], before[n], a.pc, "unchanged", "%s: %s" % (w, n))
            # and the history is unchanged: the next record sees one earlier record
            I.st = a.st
            clock(I, 1e9 + 2)
            r = record(I, 1)
            a2 = Act(I, I.getattr(o, "update"), [r])
            total(a2, w + ", next record")
            I.st = a2.st
            b = Act(I, I.get("ref_stats", "state"), [I.newlist([(1e9, record(I, 0)), (1e9 + 2, r)]), 4.0, True])
            agree(a2, o, b, w + ", next record")

    FULL = {"EbNodB": 10.0, "ppm": 1, "f1_est": 1000.0, "f2_est": 1200.0, "f3_est": 1400.0, "f4_est": 1600.0, "samp_fft": [1, 2]}
    for k in ("EbNodB", "ppm", "f1_est", "f2_est", "samp_fft"):
        p.run("without " + k, lambda: ignored("record without %s" % k, lambda I: MD.lift(I, {a: v for a, v in FULL.items() if a != k})))
        p.run("text without " + k, lambda: ignored("text record without %s" % k, lambda I: _json.dumps({a: v for a, v in FULL.items() if a != k})))
    for k in ("EbNodB", "ppm", "f1_est", "f2_est", "f3_est", "f4_est"):
        for v in ("7", None, [], {}, "x"): p.run("bad %s %r" % (k, v), lambda: ignored("record whose %s is %r" % (k, v), lambda I: _json.dumps({**FULL, k: v})))
    for t in ("{", "", "{}", "[]", "5", "null", '"text"', "[1]", "true", "{nan", "{'a':1}", '{"EbNodB":', "nan", '"EbNodB ppm f1_est f2_est samp_fft"', '["EbNodB","ppm","f1_est","f2_est","samp_fft"]'):
        p.run("text %r" % t, lambda: ignored("text %r" % t, lambda I: t))
    for n, v in {"nothing": None, "number": 5, "bytes": b"{}"}.items(): p.run(n, lambda: ignored("input is %s" % n, lambda I: v))
    p.run("list", lambda: ignored("input is a list", lambda I: I.newlist([1])))
    p.run("anytext", lambda: ignored("arbitrary text", lambda I: sym("line", "str"), strict=False))
    for v in ("1e400", "-1e400", "NaN", "Infinity", "1e308", "true", "1" * 400): 
        for k in ("EbNodB", "ppm", "f1_est", "f4_est"): p.run("%s %s" % (k, v), lambda: ignored("record whose %s is %s" % (k, v[:12]), lambda I: _json.dumps({**FULL, k: "@"}).replace('"@"', v), strict=False))

    # ---- text records give what the same dictionary gives
    def text(w, extra, tones):
        I = eng()
        r = {k: v for k, v in FULL.items() if k in ("EbNodB", "ppm", "samp_fft") or int(k[1]) <= tones}
        o = stats(I, 4.0, False)
        clock(I, 1e9)
        t = _json.dumps({**r, "eye_diagram": "@"}).replace('"@"', extra)
        a = Act(I, I.getattr(o, "update"), [t])
        total(a, w)
        I.st = a.st
        d = MD.lift(I, r)
        b = Act(I, I.get("ref_stats", "state"), [I.newlist([(1e9, d)]), 4.0, False])
        agree(a, o, b, w)
    for tones in (2, 3, 4):
        for extra in ("[[1,2]]", "[nan,nan]", "[nan]", "[-nan, 1.0]", "[]", "[" + "nan," * 300 + "nan]", "[" + "0.5," * 3000 + "0.5]"): p.run("text %s %d" % (extra, tones), lambda: text("text record, %d tones, eye diagram %s" % (tones, extra[:40]), extra, tones))
    return p.finish({"rule": "after each record snr, ppm, spacing, tones and mean tone equal the reference computed from the records younger than the window; rejected records leave every output and the history as they were"})


pymain(run)
