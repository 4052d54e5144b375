def summary(t, comment):
    """Payload summary for the telemetry dictionary, or None if there is nothing to report."""
    if t["latitude"] == 0.0 and t["longitude"] == 0.0:
        return None
    p = {}
    p["type"] = "PAYLOAD_SUMMARY"
    for k in ("callsign", "latitude", "longitude", "altitude", "time"):
        p[k] = t[k]
    p["comment"] = comment
    p["heading"] = -1
    p["temp"] = -1
    p["speed"] = t["speed"] if "speed" in t else -1
    p["sats"] = t["satellites"] if "satellites" in t else -1
    p["batt_voltage"] = t["battery_voltage"] if "battery_voltage" in t else -1
    if "snr" in t:
        p["snr"] = t["snr"]
    if "f_centre" in t:
        p["frequency"] = t["f_centre"] / 1e6
    if "custom_field_names" in t:
        for n in t["custom_field_names"]:
            if n in t:
                p[n] = t[n]
    return p


def ozimux(t):
    return "TELEMETRY," + str(t["time"]) + "," + format(t["latitude"], ".5f") + "," + format(t["longitude"], ".5f") + "," + str(t["altitude"]) + "\n"


def ascii_bytes(s):
    return s.encode("ascii")
