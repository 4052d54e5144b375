"""Packet times are dated to the UTC day they were sent."""
import datetime
from pylib import *

D = datetime.datetime
DAYS = [D(2024, 5, 6), D(2024, 3, 1), D(2024, 2, 29), D(2024, 12, 31), D(2025, 1, 1), D(2025, 2, 28)]


def run():
    p = PyCheck("P26", assumptions=["dateutil.parser.parse of HH:MM:SS replaces the time of day of its default and nothing else"])
    s = sym("packet time", "str")
    I = p.engine()
    I.load("horusdemodlib.delegates"); I.load("ref_sondehub")
    f, rf = I.get("horusdemodlib.delegates", "fix_datetime"), I.get("ref_sondehub", "dated")
    utc, loc = mk("now", "utc", ty="datetime"), mk("now", "local", ty="datetime")
    times = ["%02d:%s" % (h, ms) for h in range(24) for ms in ("00:00", "30:15", "59:59")]
    nows = [D(d.year, d.month, d.day, h, m, x) for d in (DAYS if THOROUGH else DAYS[:]) for h in range(24) for m, x in ((0, 0), (59, 59))]

    def live():
        a = Act(I, f, [s])
        b = Act(I, rf, [s, utc])
        envs = [{s: t, utc: n, loc: n + datetime.timedelta(hours=9)} for n in nows for t in times]
        p.table(a.outcome(), b.outcome(), envs, "accept", "fix_datetime(time)")
        p.table(a.frozen(), b.frozen(), envs, "dated-day", "fix_datetime(time)")
        bad = [{s: t, utc: n, loc: n} for n in nows[:40:9] for t in ("", "25:00:00", "12:60:00", "12:00:61", "x")]
        p.table(a.outcome(), b.outcome(), bad, "accept", "fix_datetime(invalid time)")

    def given():
        w = sym("receiver time", "str")
        a = Act(I, f, [s, w])
        n = mk("parse", w, None, ty="datetime")
        def ref(): return I.get("ref_sondehub", "dated_given")
        b = Act(I, ref(), [s, w])
        envs = [{s: t, w: x.strftime("%Y-%m-%dT%H:%M:%SZ"), utc: D(2020, 1, 1, 5), loc: D(2020, 1, 1, 5)} for x in nows for t in times]
        p.table(a.frozen(), b.frozen(), envs, "dated-day", "fix_datetime(time, receiver time)")
    p.run("clock", live)
    p.run("given time", given)
    return p.finish({"rule": "date and time of the result equal the reference for every hour of the packet and of the receiver clock (complete evaluation of the extracted expression over the hour table, month and year ends included)", "table": len(times) * len(nows)})


pymain(run)
