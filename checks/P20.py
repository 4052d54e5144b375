"""Telemetry is translated to SondeHub form only when it should be uploaded."""
import datetime
from pylib import *
from ops import batom
from interp import Exc

MAND = ["time", "callsign", "sequence_number", "latitude", "longitude", "altitude"]
NUMS = {"sequence_number": ("int", (-1, 1 << 32)), "latitude": ("float", (-180.0, 180.0)), "longitude": ("float", (-180.0, 180.0)), "altitude": ("float", (-1e5, 1e5)),
        "temperature": ("float", (-1000.0, 1000.0)), "satellites": ("int", (-1, 255)), "battery_voltage": ("float", (-100.0, 100.0)), "speed": ("float", (-1.0, 1e4)),
        "vel_h": ("float", (-1e4, 1e4)), "vel_v": ("float", (-1e4, 1e4)), "snr": ("float", (-999.0, 200.0)), "f_centre": ("float", (0.0, 1e10)), "tone_spacing": ("float", (-1e4, 1e4)),
        "baud_rate": ("int", (0, 100000))}
STRS = ["raw", "modulation", "modulation_detail", "via"]
CUSTOM = ["ext_temperature", "cutdown_count"]


def value(k):
    if k == "snr": return ite(cond(sym("snr unknown", "bool")), -999.0, sym("telem.snr", "float", (-99.0, 200.0)))
    if k in NUMS: return sym("telem." + k, *NUMS[k])
    return sym("telem." + k, "str")


def telemetry(I, optional, always, skip=(), names=None):
    """Dictionary with the mandatory keys, `always`, and each of `optional` present or not."""
    prs = [(k, value(k)) for k in MAND if k not in skip] + [(k, value(k)) for k in always]
    prs += [(k, ite(cond(sym("has " + k, "bool")), value(k), ABSENT)) for k in optional]
    prs += [(c, ite(cond(sym("has " + c, "bool")), sym("telem." + c, "float", (-1e9, 1e9)), ABSENT)) for c in (names or ())]
    if names is not None: prs.append(("custom_field_names", I.newlist(list(names))))
    return I.newdict(prs)


def run():
    DTS = [datetime.datetime(2024, 5, 6, h, m, s) for h, m, s in ((12, 0, 0), (12, 2, 59), (12, 3, 0), (12, 3, 1), (11, 57, 0), (11, 56, 59), (6, 7, 8), (0, 0, 30), (23, 59, 40), (12, 1, 0))]
    TT = sym("telem.time", "str")
    p = PyCheck("P20", pools={mk("now", "utc", ty="datetime"): DTS, mk("now", "local", ty="datetime"): [d + datetime.timedelta(hours=7) for d in DTS],
                              TT: ["12:00:00", "12:03:00", "12:05:00", "11:57:00", "23:59:59", "00:00:00", "nonsense", "06:07:08"],
                              sym("telem.callsign", "str"): ["UNKNOWN_PAYLOAD_ID", "HORUS", "4FSKTEST", "4FSKTEST-V2", "", "unknown_payload_id", "UNKNOWN_PAYLOAD_ID2"],
                              sym("telem.via", "str"): ["sondehub", "other", "", "SondeHub", "sondehub2", "aprs"]}, tries=200,
                assumptions=["telemetry values have the types the decoders produce and numbers are finite", "custom field names differ from the standard SondeHub keys"])
    UM = "horusdemodlib.utils"

    def scen(w, optional, always=(), names=None, meta=True, ct=None):
        I = p.engine()
        I.load(UM); I.load("ref_sondehub")
        t = telemetry(I, optional, always, names=names)
        def metadata(): return I.newdict([("software_name", sym("meta.software_name", "str")), ("uploader_position", sym("meta.position", "any")), ("time_received", sym("meta.time_received", "str"))])
        ctv = cond(sym("check_time", "bool")) if ct is None else ct
        fix = I.get("horusdemodlib.delegates", "fix_datetime")
        before = I.freeze(t)
        kw = {"metadata": metadata()} if meta else {}
        if ct != "default": kw["check_time"] = ctv
        a = Act(I, I.get(UM, "telem_to_sondehub"), [t], kw)
        b = Act(I, I.get("ref_sondehub", "translated"), [t, metadata() if meta else I.newdict([]), True if ct == "default" else ctv, fix])
        W = "telem_to_sondehub, " + w
        def uploaded(x): return and_(x.pc, x.at(lambda: not_(gmap(lambda v: v is None, x.ret))) if x.pc is not False else False)
        ua, ub = uploaded(a), uploaded(b)
        p.same(ua, ub, True, "uploaded-or-not", W)
        p.never(a.raised(), "no-exception", W, "exceptions: " + ", ".join(sorted({str(n) for n, _, _ in a.raises})))
        both = and_(ua, ub)
        if both is False: return
        ks = {key(k): k for k in a.keys() + b.keys()}
        for kk, k in sorted(ks.items(), key=lambda x: repr(x[0])):
            p.same(a.item(k), b.item(k), both, "key", "%s: %s" % (W, show(k)))
        p.same(a.at(lambda: I.freeze(t)), before, a.pc, "input-unchanged", W)

    p.run("mandatory", lambda: scen("mandatory fields", []))
    p.run("mandatory default", lambda: scen("mandatory fields, default time checking", [], ct="default"))
    p.run("no metadata", lambda: scen("mandatory fields, no metadata", [], meta=False))
    for k in list(NUMS) + STRS:
        if k not in MAND: p.run(k, lambda: scen("with " + k, [k], ct=False))
    p.run("via", lambda: scen("with via", ["via"]))
    nums = [k for k in NUMS if k not in MAND]
    p.run("numbers", lambda: scen("optional numbers in any combination", nums, ct=False))
    p.run("strings", lambda: scen("optional strings in any combination", STRS, ct=False))
    p.run("all", lambda: scen("everything present", [], nums + STRS, names=CUSTOM))
    for n in (0, 1, 2): p.run("custom %d" % n, lambda: scen("%d custom fields" % n, [], names=CUSTOM[:n], ct=False))
    if THOROUGH: p.run("everything", lambda: scen("everything in any combination", nums + STRS, names=CUSTOM))

    def missing(k):
        I = p.engine()
        I.load(UM)
        a = Act(I, I.get(UM, "telem_to_sondehub"), [telemetry(I, [], [], skip=(k,))], {"check_time": False})
        up = and_(a.pc, a.at(lambda: not_(gmap(lambda v: v is None, a.ret)))) if a.pc is not False else False
        p.never(up, "uploaded-or-not", "telem_to_sondehub, %s missing" % k)
        if k == "altitude": p.never(a.raised(), "no-exception", "telem_to_sondehub, no valid altitude (v3)")
    for k in MAND: p.run("missing " + k, lambda: missing(k))
    # the uploader's own call: its metadata, time checking on
    def uploader():
        SM = "horusdemodlib.sondehubamateur"
        I = p.engine()
        I.load(SM); I.load("ref_sondehub")
        t = telemetry(I, ["speed"], [])
        cfg = {"user_callsign": sym("cfg.callsign", "str"), "user_position": sym("cfg.position", "any"), "user_radio": sym("cfg.radio", "str"), "user_antenna": sym("cfg.antenna", "str"),
               "software_name": sym("cfg.software", "str"), "software_version": sym("cfg.version", "str")}
        u = Act(I, I.get(SM, "SondehubAmateurUploader"), [], {**cfg, "inhibit": True})
        I.st = u.st
        a = Act(I, I.getattr(u.ret, "reformat_data"), [t])
        meta = I.newdict([("software_name", cfg["software_name"]), ("software_version", cfg["software_version"]), ("uploader_callsign", cfg["user_callsign"]), ("uploader_position", cfg["user_position"]), ("uploader_radio", cfg["user_radio"]), ("uploader_antenna", cfg["user_antenna"])])
        b = Act(I, I.get("ref_sondehub", "translated"), [t, meta, True, I.get("horusdemodlib.delegates", "fix_datetime")])
        up = lambda x: and_(x.pc, x.at(lambda: not_(gmap(lambda v: v is None, x.ret))) if x.pc is not False else False)
        p.same(up(a), up(b), True, "uploaded-or-not", "SondehubAmateurUploader.reformat_data")
        both = and_(up(a), up(b))
        for k in b.keys(): p.same(a.item(k), b.item(k), both, "key", "SondehubAmateurUploader.reformat_data: %s" % show(k))
    p.run("uploader", uploader)
    return p.finish({"rule": "a dictionary is returned exactly when the reference returns one, with exactly the reference's keys and values, for every presence combination and value; the input is not modified"})


pymain(run)
