"""Reference rules: dating of packet times, translation to SondeHub form."""
import datetime
from dateutil.parser import parse


def dated(text, now):
    t = parse(text, default=now)
    if t.hour == 23 and now.hour == 0:
        return t - datetime.timedelta(days=1)
    if t.hour == 0 and now.hour == 23:
        return t + datetime.timedelta(days=1)
    return t


def utcnow():
    return datetime.datetime.now(datetime.timezone.utc)


def translated(t, meta, check_time, fix):
    if "via" in t and t["via"] != "sondehub":
        return None
    try:
        when = fix(t["time"])
        off = abs((when - utcnow()).total_seconds())
    except Exception:
        return None
    if check_time and off > 180:
        return None
    if t["callsign"] == "UNKNOWN_PAYLOAD_ID":
        return None
    out = dict(meta)
    out["datetime"] = when.strftime("%Y-%m-%dT%H:%M:%S.%fZ")
    out["payload_callsign"] = t["callsign"]
    out["frame"] = t["sequence_number"]
    out["lat"] = t["latitude"]
    out["lon"] = t["longitude"]
    out["alt"] = t["altitude"]
    if "temperature" in t and t["temperature"] > -273.15:
        out["temp"] = t["temperature"]
    if "satellites" in t:
        out["sats"] = t["satellites"]
    if "battery_voltage" in t and t["battery_voltage"] >= 0:
        out["batt"] = t["battery_voltage"]
    for k in ("speed", "vel_h", "vel_v", "tone_spacing", "raw", "modulation", "modulation_detail", "baud_rate"):
        if k in t:
            out[k] = t[k]
    if "snr" in t and t["snr"] > -100:
        out["snr"] = t["snr"]
    if "f_centre" in t:
        out["frequency"] = t["f_centre"] / 1e6
    if "custom_field_names" in t:
        for n in t["custom_field_names"]:
            if n in t:
                out[n] = t[n]
    return out


def dated_given(text, receiver):
    return dated(text, parse(receiver))
