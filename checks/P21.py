"""Uploads are bounded by the retry limit and failures never kill the uploader."""
from pylib import *
from ops import batom, ncmp
from interp import Exc

SM = "horusdemodlib.sondehubamateur"
TELEM_URL = "https://api.v2.sondehub.org/amateur/telemetry"
STATION_URL = "https://api.v2.sondehub.org/amateur/listeners"
NOTRAISED = and_(batom("isexc", "*extrequest", "requests.exceptions.RequestException"), batom("isexc", "*extrequest", "requests.RequestException"))


def fails(n): return cond(mk("sym", "request %d fails" % n, ty="bool"))
def status(n): return mk("attr", mk("response", n, ty="ext"), "status_code", ty="int", rng=(100, 599))


def run():
    p = PyCheck("P21", pools={status(n): [200, 202, 404, 500, 501, 502, 503, 504, 400, 100, 599, 505, 499, 201, 300] for n in (1, 2, 3, 4, 5, 6)}, tries=300,
                assumptions=["network failures of the requests library are requests.RequestException", "the queue holds what was put until it is taken (queue.Queue)"])

    CFG = {"user_callsign": sym("cfg.callsign", "str"), "user_radio": sym("cfg.radio", "str"), "user_antenna": sym("cfg.antenna", "str"), "contact_email": sym("cfg.email", "str"),
           "software_name": sym("cfg.software", "str"), "software_version": sym("cfg.version", "str")}

    def eng(unroll=3):
        I = p.engine(unroll=unroll)
        I.load("ref_queue"); I.load("ref_upload")
        I.ext["queue.Queue"] = I.ext["Queue.Queue"] = I.ext["queue.SimpleQueue"] = lambda I, a, k: I.call(I.get("ref_queue", "RefQueue"), [], {})
        I.ext["method:response.json"] = answer
        I.load(SM)
        return I

    def answer(I, x, a, k):
        """Answer text as JSON: not JSON, a value of any type, or an object whose error and warning lists have up to two entries of any shape."""
        I.raise_if(I.freshatom("answer is not JSON"), Exc("json.JSONDecodeError"))
        n = I.seq("answer")
        has = lambda w: cond(mk("sym", "answer %d: %s" % (n, w), ty="bool"))
        def entry(w): return ite(has(w + " is an object"), I.newdict([(f, ite(has("%s has %s" % (w, f)), sym("answer %d %s %s" % (n, w, f), "str" if f != "payload" else "any"), ABSENT)) for f in ("error_message", "warning_message", "payload")]), ite(has(w + " is text"), sym("answer text", "str"), ite(has(w + " is number"), 5, None)))
        def lst(w): return ite(has(w + " is a list"), I.newlist([entry("%s %d" % (w, i)) for i in range(2)]), ite(has(w + " is empty"), I.newlist([]), ite(has(w + " is null"), None, 7)))
        full = I.newdict([(w, ite(has("has " + w), lst(w), ABSENT)) for w in ("errors", "warnings")])
        return ite(has("is an object"), full, ite(has("is a list"), I.newlist([entry("item")]), ite(has("is text"), "x", ite(has("is null"), None, 3))))

    def uploader(I, **kw):
        u = Act(I, I.get(SM, "SondehubAmateurUploader"), [], {**CFG, **kw})
        p.never(u.raised(), "no-exception", "SondehubAmateurUploader(%s)" % ", ".join(sorted(kw)))
        I.st = u.st
        return u.ret, u

    def http(a, st=None):
        """[(condition, verb, url, arguments)] of the requests, by request number."""
        out = {}
        for c, x in a.effects_at(st or a.st, "http"):
            verb, n, args, kw = x[1], x[2], list(x[3]), dict(x[4])
            if verb == "?": verb = str(args.pop(0)).lower()
            url = args.pop(0) if args else kw.pop("url", None)
            if args: kw["data"] = args.pop(0)
            out.setdefault(n, []).append((c, verb, url, kw))
        return out

    def total(a, w): p.never(a.raised(), "no-exception", w, "exceptions: " + ", ".join(sorted({"%s(%s)" % (n, str(v)[:60]) for n, v, _ in a.raises})))

    def bounded(a, w, limit, retry):
        """Request n+1 is issued exactly if the first n were all answered with a status to retry and n is below the limit."""
        p.same(a.pc, True, NOTRAISED, "returns", w)
        p.same(a.raised(), False, NOTRAISED, "no-exception", w)
        p.ob(not a.limits, "terminates", w, "more requests than the limit at " + ", ".join(sorted({l for l, _ in a.limits})))
        h = http(a)
        want = True
        for n in range(1, max([limit] + list(h)) + 1):
            if n > limit: want = False
            got = False
            for c, *_ in h.get(n, []): got = or_(got, c)
            p.same(got, want, NOTRAISED, "request-issued", "%s, request %d" % (w, n))
            again = False
            for s in retry: again = or_(again, ncmp("==", status(n), s))
            want = and_(want, and_(not_(fails(n)), again))
        return h

    def headers(v):
        return {k: x for k, x in v[2:]} if isinstance(v, tuple) and v and v[0] == "dict" else {}

    def request_ok(p, h, w, url, data, enc):
        for n, lst in h.items():
            for c, verb, u, kw in lst:
                W = "%s, request %d" % (w, n)
                p.same(verb, "put", c, "method", W)
                p.same(u, url, c, "url", W)
                d = headers(kw.get("headers"))
                hd = {str(k).lower(): v for k, v in d.items()}
                if enc:
                    p.same(kw.get("data", ABSENT), data, c, "body", W)
                    p.same(hd.get("content-encoding", ABSENT), "gzip", c, "content-encoding", W)
                    p.same(hd.get("content-type", ABSENT), "application/json", c, "content-type", W)
                else:
                    p.same(kw.get("json", ABSENT), data, c, "body", W)
                t = kw.get("timeout")
                ts = t if isinstance(t, tuple) and not (t and t[0] in ("list",)) else (t,)
                p.ob(t is not None and all(x is not None for x in ts), "timeout", W, "a request without timeout can block the uploader for ever")

    LIM = (0, 1, 2, 3, 4) if not THOROUGH else (0, 1, 2, 3, 4, 5, 8)

    def items(I, n): return [I.newdict([("payload_callsign", sym("q%d.callsign" % i, "str")), ("altitude", sym("q%d.alt" % i, "float", (-1e6, 1e6)))]) for i in range(n)]

    def telem(limit, n):
        I = eng(limit + 2)
        u, _ = uploader(I, upload_retries=limit, inhibit=True)
        ts = items(I, n)
        L = I.newlist(ts)
        bb = Act(I, I.get("ref_upload", "body"), [L])
        a = Act(I, I.getattr(u, "upload_telemetry"), [L])
        w = "upload_telemetry, limit %d, %d packets" % (limit, n)
        h = bounded(a, w, limit, (500, 501, 502, 503, 504))
        request_ok(p, h, w, TELEM_URL, bb.frozen(), True)
    for l in LIM:
        for n in ((1, 3) if l in (1, 2) else (2,)): p.run("upload_telemetry %d %d" % (l, n), lambda: telem(l, n))

    def unserialisable():
        I = eng()
        u, _ = uploader(I, upload_retries=2, inhibit=True)
        a = Act(I, I.getattr(u, "upload_telemetry"), [I.newlist([I.newdict([("x", sym("raw", "bytes"))])])])
        w = "upload_telemetry, packet that is not JSON"
        total(a, w)
        p.ob(not http(a), "request-issued", w)
    p.run("unserialisable", unserialisable)

    def station(limit, pos):
        I = eng(limit + 2)
        u, _ = uploader(I, upload_retries=limit, inhibit=True, user_position=pos)
        a = Act(I, I.getattr(u, "station_position_upload"), [])
        w = "station_position_upload, limit %d%s" % (limit, "" if pos is not None else ", no position")
        h = bounded(a, w, limit, (500,))
        want = I.newdict([("software_name", CFG["software_name"]), ("software_version", CFG["software_version"]), ("uploader_callsign", CFG["user_callsign"]), ("uploader_position", pos),
                          ("uploader_radio", CFG["user_radio"]), ("uploader_antenna", CFG["user_antenna"]), ("uploader_contact_email", CFG["contact_email"]), ("mobile", False)])
        request_ok(p, h, w, STATION_URL, I.freeze(want), False)
        # the attempt is dated, so that it is not repeated before the update period is over
        last = a.at(lambda: I.getattr(u, "last_user_position_upload"))
        if limit:
            for c, x in leaves(last): p.ob(and_(c, a.pc) is False or (isinstance(x, T) and x.op == "time"), "attempt-dated", w, "last upload time is %s" % show(x))
    POS = (sym("cfg.lat", "float", (-90, 90)), sym("cfg.lon", "float", (-180, 180)), sym("cfg.alt", "float", (-1e4, 1e5)))
    for l in LIM: p.run("station %d" % l, lambda: station(l, POS))
    p.run("station no position", lambda: station(2, None))

    # ---- queueing
    def adding(inhibit, running=True, waiting=0):
        I = eng()
        out = I.newdict([("payload_callsign", sym("out.callsign", "str"))])
        okc = cond(sym("telemetry is to be uploaded", "bool"))
        calls = []
        def tts(I, a, k):
            calls.append(I.freeze(a[0]))
            return ite(okc, out, None)
        I.models["horusdemodlib.utils.telem_to_sondehub"] = tts
        u, c = uploader(I, inhibit=inhibit)
        w = "inhibited uploader" if inhibit else "running uploader" if running else "closed uploader"
        starts = [x for g, x in c.effects("thread.start")]
        p.ob(len(starts) == (0 if inhibit else 1), "one-thread", w, "%d threads started" % len(starts))
        for x in starts:
            tgt = x[1].args[1]
            p.ob(isinstance(tgt, Meth) and getattr(tgt.fn, "name", "") == "process_queue" or "process_queue" in repr(tgt), "thread-runs-queue", w, repr(tgt)[:80])
        p.same(c.at(lambda: I.call(I.getattr(u, "running"), [], {})), not inhibit, True, "running", w)
        if not running:
            a0 = Act(I, I.getattr(u, "close"), [])
            total(a0, w + ", close")
            I.st = a0.st
            p.same(a0.at(lambda: I.call(I.getattr(u, "running"), [], {})), False, True, "running", w)
        if inhibit:
            a0 = Act(I, I.getattr(u, "close"), [])
            total(a0, w + ", close")
        if waiting:
            q = I.getattr(u, "input_queue")
            for i in range(waiting): I.call(I.getattr(q, "put"), [I.newdict([("packet", i)])], {})
            w += ", %d packets waiting" % waiting
        t = I.newdict([("callsign", sym("in.callsign", "str"))])
        def entries(a): return a.at(lambda: I.freeze(I.getattr(I.getattr(u, "input_queue"), "entries")))
        a = Act(I, I.getattr(u, "add"), [t])
        total(a, w + ", add")
        p.ob(not http(a), "request-issued", w + ", add")
        want = ite(okc, I.freeze(I.newlist([out])), I.freeze(I.newlist([]))) if not inhibit and running else I.freeze(I.newlist([]))
        if waiting:
            n = length_of(entries(a))
            p.same(n, ite(okc, waiting + 1, waiting), True, "queued-once", w + ", add")
            return
        p.same(length_of(entries(a)), length_of(want), True, "queued-once", w + ", add")
        p.same(first(entries(a)), first(want), True, "queued-once", w + ", add: item")
        for x in calls: p.same(x, I.freeze(t), True, "queued-once", w + ", add: input")
        I.st = a.st
        b = Act(I, I.getattr(u, "add"), [t])
        p.same(length_of(entries(b)), ite(okc, 2, 0) if not inhibit and running else 0, True, "queued-once", w + ", second add")

    def length_of(v):
        """Number of elements of a frozen list whose elements are present together or not at all."""
        r = 0
        for c, x in leaves(v):
            n = 0
            for g, _ in x[1:]: n = ite(g, gmap(lambda y: y + 1, n), n)
            r = ite(c, n, r)
        return r

    def first(v):
        r = ABSENT
        for c, x in leaves(v):
            y = ABSENT
            for g, e in reversed(x[1:]): y = ite(g, e, y)
            r = ite(c, y, r)
        return r
    p.run("add inhibited", lambda: adding(True))
    p.run("add running", lambda: adding(False))
    p.run("add behind many", lambda: adding(False, True, 3000 if THOROUGH else 700))
    p.run("add closed", lambda: adding(False, False))

    # ---- the uploader thread: cycles with concrete request results
    def cycles(w, batches, result, limit=3, rate=1, during=None):
        """batches[i]: number of packets added before cycle i; result(n): status or 'fail' of request n."""
        I = eng(max(64, 2 * max(batches)))
        u, _ = uploader(I, upload_retries=limit, upload_rate=rate, user_position=POS, inhibit=False, user_position_update_rate=6)
        q = I.getattr(u, "input_queue")
        state = {"cycle": 0, "n": 0, "log": [], "added": 0, "sleeps": 0}
        def put(n):
            for _ in range(n):
                I.call(I.getattr(q, "put"), [I.newdict([("packet", state["added"])])], {})
                state["added"] += 1
        def req(I, verb, a, k):
            a = list(a)
            if verb == "?": verb = a.pop(0).lower()
            state["n"] += 1
            data = I.freeze(a[1] if len(a) > 1 else k.get("data", k.get("json")))
            state["log"].append((state["cycle"], a[0] if a else k.get("url"), data))
            if during and state["n"] in during: put(during[state["n"]])
            r = result(state["n"])
            if r == "fail": I.raise_if(True, Exc("*ext", "request"))
            return I.alloc(Rec("obj", m={"status_code": ("status_code", r), "text": ("text", "t"), "json": ("json", Ext("jsonresult"))}, name="response"))
        for v in ("put", "post", "get", "request"): I.ext["requests." + v] = (lambda v: lambda I, a, k: req(I, v, a, k))("?" if v == "request" else v)
        I.ext["jsonresult"] = lambda I, a, k: I.newdict([])
        def slept(I, a, k):
            state["sleeps"] += 1
            if state["sleeps"] % rate: return None
            state["cycle"] += 1
            if state["cycle"] < len(batches): put(batches[state["cycle"]])
            else: I.call(I.getattr(u, "close"), [], {})
        I.ext["time.sleep"] = slept
        CLOCK = lambda I, a, k: 1e9 + 3600.0 * 2 * state["cycle"]
        I.ext["time.time"] = I.ext["time.monotonic"] = CLOCK
        a = Act(I, I.getattr(u, "process_queue"), [], pre=lambda: put(batches[0]))
        total_c = a.raised()
        p.never(total_c if not a.raises else and_(total_c, NOTRAISED), "no-exception", w)
        p.ob(a.pc is True and not a.limits, "thread-continues", w, "the thread stops or never comes back: outcome %s, limits %s" % (show(a.outcome()), [l for l, _ in a.limits]))
        # reference
        want, rn, pend, added, lastpos = [], 0, [], 0, 0.0
        def add(n):
            nonlocal added
            for _ in range(n):
                pend.append(added)
                added += 1
        for cyc in range(len(batches)):
            add(batches[cyc])
            def send(url, data, retry):
                nonlocal rn
                tries = 0
                while tries < limit:
                    rn += 1
                    want.append((cyc, url, data))
                    if during and rn in during: add(during[rn])
                    r = result(rn)
                    if r in retry: tries += 1
                    else: break
            if pend:
                batch, pend[:] = list(pend), []
                send(TELEM_URL, batch, (500, 501, 502, 503, 504))
            now = 1e9 + 3600.0 * 2 * cyc
            if now - lastpos > 6 * 3600:
                send(STATION_URL, None, (500,))
                lastpos = now
        got = [(c, u2) for c, u2, d in state["log"]]
        p.ob(got == [(c, u2) for c, u2, d in want], "requests-per-cycle", w, "requests (cycle, url) %s instead of %s" % (got[:8], [(c, x) for c, x, _ in want][:8]))
        for i, ((c, u2, d), (c2, u3, d2)) in enumerate(zip(state["log"], want)):
            if d2 is None: continue
            I2 = I
            L = I.newlist([I.newdict([("packet", x)]) for x in d2])
            bb = Act(I, I.get("ref_upload", "body"), [L])
            p.same(d, bb.frozen(), True, "batch", "%s, request %d" % (w, i + 1))

    ok = lambda n: 200
    p.run("cycles ok", lambda: cycles("uploader thread, 8 cycles, requests accepted", [0, 1, 3, 0, 2, 1, 0, 1], ok))
    p.run("cycles fail", lambda: cycles("uploader thread, requests fail", [2, 1, 0, 0, 2, 1, 1], lambda n: "fail"))
    p.run("cycles 503", lambda: cycles("uploader thread, server errors", [1, 2, 0, 3, 1, 1], lambda n: 503))
    p.run("cycles 500", lambda: cycles("uploader thread, internal server errors", [1, 2, 0, 3, 1, 1], lambda n: 500))
    p.run("cycles 202", lambda: cycles("uploader thread, warnings without details", [1, 2, 0, 3, 1, 1], lambda n: 202))
    p.run("cycles mixed", lambda: cycles("uploader thread, mixed results", [1, 1, 1, 1, 1, 1, 1, 1], lambda n: [200, 404, 502, 502, "fail", 202, 500, 200, 400, 504][n % 10]))
    p.run("cycles late", lambda: cycles("uploader thread, packets arriving during an upload", [1, 0, 0, 2, 0, 0], ok, during={1: 2, 2: 1, 4: 1}))
    p.run("cycles rate", lambda: cycles("uploader thread, upload every 3 s", [1, 0, 2, 0, 1], ok, rate=3))

    p.run("cycles backlog", lambda: cycles("uploader thread, a long backlog", [600 if THOROUGH else 260, 1, 0, 0], lambda n: [500, 200][n % 2]))
    p.run("cycles outage", lambda: cycles("uploader thread, a backlog of single packets", [1] * 30, lambda n: 503 if n < 40 else 200, limit=2))

    def position_updates(given):
        I = eng()
        u, _ = uploader(I, inhibit=True, user_position=POS if given else None)
        new = [sym("new.lat", "float"), sym("new.lon", "float"), sym("new.alt", "float")]
        a = Act(I, I.getattr(u, "update_station_position"), new)
        w = "update_station_position%s" % ("" if given else ", position reporting off")
        total(a, w)
        p.same(a.frozen(a.at(lambda: I.getattr(u, "user_position"))), tuple(new) if given else None, a.pc, "station-position", w)
    for g in (True, False): p.run("position %s" % g, lambda: position_updates(g))
    return p.finish({"rule": "request n+1 is issued exactly when requests 1..n were answered with a status to retry and n is below the limit; requests carry the queued packets once, in order; nothing raises"})


pymain(run)
