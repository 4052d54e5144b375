"""Reference v2 packet layout and clipping (32 byte packet, little endian)."""
import binascii, struct


def clip(v, lo, hi):
    v = int(v)
    if v < lo: return lo
    if v > hi: return hi
    return v


def volts(v):
    v = float(v)
    if v < 0: v = 0.0
    if v > 5: v = 5.0
    return int(255 * v / 5.0)


def fields(a):
    """Field name -> (offset, struct character, value)."""
    return {
        "payload_id": (0, "H", a["payload_id"]),
        "sequence_number": (2, "H", int(a["sequence_number"]) % 65536),
        "hours": (4, "B", clip(a["hours"], 0, 23)),
        "minutes": (5, "B", clip(a["minutes"], 0, 59)),
        "seconds": (6, "B", clip(a["seconds"], 0, 59)),
        "latitude": (7, "f", float(a["latitude"])),
        "longitude": (11, "f", float(a["longitude"])),
        "altitude": (15, "H", clip(a["altitude"], 0, 65535)),
        "speed": (17, "B", clip(a["speed"], 0, 255)),
        "satellites": (18, "B", clip(a["satellites"], 0, 255)),
        "temperature": (19, "b", clip(a["temperature"], -128, 127)),
        "battery_voltage": (20, "B", volts(a["battery_voltage"])),
        "ascent_rate": (21, "h", clip(a["ascent_rate"] * 100, -32768, 32767)),
        "ext_temperature": (23, "h", clip(a["ext_temperature"] * 10, -32768, 32767)),
        "ext_humidity": (25, "B", clip(a["ext_humidity"], 0, 255)),
        "ext_pressure": (26, "H", clip(a["ext_pressure"] * 10, 0, 65535)),
    }


def get(a, name):
    return fields(a)[name][2]


def raw(d, off, ch):
    return struct.unpack("<" + ch, d[off:off + struct.calcsize("<" + ch)])[0]


def part(d, a, b): return d[a:b]


def crc(d): return struct.pack("<H", binascii.crc_hqx(d[:30], 0xFFFF))


def tm(t): return {"hours": t.hour, "minutes": t.minute, "seconds": t.second}


def symbols(packet, preamble):
    out = []
    for b in b"\x1b" * preamble + packet:
        out.append(b // 64)
        out.append(b // 16 % 4)
        out.append(b // 4 % 4)
        out.append(b % 4)
    return out


def bits(packet, preamble):
    out = []
    for b in b"\x1b" * preamble + packet:
        for k in (128, 64, 32, 16, 8, 4, 2, 1): out.append(b // k % 2)
    return out
