import datetime
import math
from ref_crc import text as ukhas


def parsed(sentence):
    """Telemetry of a UKHAS text sentence; ValueError when it is not acceptable."""
    if type(sentence) == bytes:
        sentence = sentence.decode("ascii")
    raw = sentence.strip()
    body = raw.split("$")[-1]
    parts = body.split("*")
    text = parts[0]
    if len(parts) < 2:
        raise ValueError()
    if ukhas(text.encode("ascii")) != parts[1]:
        raise ValueError()
    f = text.split(",")
    if len(f) < 6:
        raise ValueError()
    seq = int(f[1])
    lat = float(f[3])
    lon = float(f[4])
    alt = int(f[5])
    if ":" in f[2]:
        t = datetime.datetime.strptime(f[2], "%H:%M:%S")
    else:
        t = datetime.datetime.strptime(f[2], "%H%M%S")
    if not math.isfinite(lat) or not math.isfinite(lon):
        raise ValueError()
    if alt < 0 or alt > 65535:
        raise ValueError()
    return {"raw": raw, "modulation": "RTTY", "callsign": f[0], "sequence_number": seq, "time": t.strftime("%H:%M:%S"), "latitude": lat, "longitude": lon, "altitude": alt}
