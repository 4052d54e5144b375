"""Reference rules for v1/v2 packets, written from the packet documentation (wiki field tables reproduced in the docstrings
of delegates.py and in HORUS_PACKET_FORMATS)."""
import binascii, struct


def at(fmt, data, off):
    return struct.unpack("<" + fmt, data[off:off + struct.calcsize("<" + fmt)])[0]


def callsign(ids, n):
    if n in ids: return ids[n]
    return "UNKNOWN_PAYLOAD_ID"


def hms(h, m, s):
    if h > 23 or m > 59 or s > 59: raise ValueError()
    return "%02d:%02d:%02d" % (h, m, s)


def degrees(v):
    if not (v >= -180 and v <= 180): raise ValueError()
    return v


def volts(b):
    return b * 5.0 / 255.0


def text(v):
    if type(v) == float: return "%.6f" % v
    if type(v) == int or type(v) == str: return "%s" % v
    raise ValueError()


def custom_value(kind, v):
    if kind == "battery_5v_byte":
        if type(v) != int: raise ValueError()
        return (volts(v), "%.2f" % volts(v))
    if kind == "divide_by_10":
        if type(v) != int: raise ValueError()
        return (v / 10, "%.1f" % (v / 10))
    if kind == "divide_by_100":
        if type(v) != int: raise ValueError()
        return (v / 100, "%.2f" % (v / 100))
    if kind == "none" or kind == "None" or kind is None: return (v, text(v))
    raise ValueError()


def finish(out, texts):
    line = ",".join(texts)
    out["ukhas_str"] = "$$" + line + "*" + "%04X" % binascii.crc_hqx(line.encode("ascii"), 0xFFFF)
    out["callsign"] = out["payload_id"]
    return out


def base(data, modulation):
    return {"crc_ok": True, "modulation": modulation, "raw": data.hex().upper()}


def common(out, texts, data, ids, idn, o):
    out["payload_id"] = callsign(ids, idn)
    out["sequence_number"] = at("H", data, o)
    out["time"] = hms(data[o + 2], data[o + 3], data[o + 4])
    out["latitude"] = degrees(at("f", data, o + 5))
    out["longitude"] = degrees(at("f", data, o + 9))
    out["altitude"] = at("H", data, o + 13)
    out["speed"] = data[o + 15]
    out["satellites"] = data[o + 16]
    out["temperature"] = at("b", data, o + 17)
    out["battery_voltage"] = volts(data[o + 18])
    texts.append(out["payload_id"])
    texts.append("%d" % out["sequence_number"])
    texts.append(out["time"])
    texts.append("%.5f" % out["latitude"])
    texts.append("%.5f" % out["longitude"])
    texts.append("%d" % out["altitude"])
    texts.append("%d" % out["speed"])
    texts.append("%d" % out["satellites"])
    texts.append("%d" % out["temperature"])
    texts.append("%.2f" % out["battery_voltage"])


def v1(data, ids, layouts):
    out, texts = base(data, "Horus Binary v1"), []
    common(out, texts, data, ids, data[0], 1)
    return finish(out, texts)


def v2_16(data, ids, layouts):
    out, texts = base(data, "Horus Binary v2"), []
    out["payload_id"] = callsign(ids, data[0])
    out["sequence_number"] = data[1]
    t = at("H", data, 2)
    if t > 43200: raise ValueError()
    out["time"] = "%02d:%02d:%02d" % (t * 2 // 3600 % 24, t * 2 // 60 % 60, t * 2 % 60)
    out["latitude"] = degrees(struct.unpack("<i", b"\0" + data[4:7])[0] * 1e-7)
    out["longitude"] = degrees(struct.unpack("<i", b"\0" + data[7:10])[0] * 1e-7)
    out["altitude"] = at("H", data, 10)
    out["battery_voltage"] = volts(data[12])
    out["flags"] = data[13]
    texts.append(out["payload_id"])
    texts.append("%d" % out["sequence_number"])
    texts.append(out["time"])
    texts.append("%.5f" % out["latitude"])
    texts.append("%.5f" % out["longitude"])
    texts.append("%d" % out["altitude"])
    texts.append("%.2f" % out["battery_voltage"])
    texts.append("%d" % out["flags"])
    return finish(out, texts)


def v2_32(data, ids, layouts):
    out, texts = base(data, "Horus Binary v2"), []
    common(out, texts, data, ids, at("H", data, 0), 2)
    lay = layouts[out["payload_id"]] if out["payload_id"] in layouts else layouts["4FSKTEST-V2"]
    vals = struct.unpack(lay["struct"], data[21:30])
    if len(vals) != len(lay["fields"]): raise ValueError()
    names = []
    for f, v in zip(lay["fields"], vals):
        value, txt = custom_value(f[1], v)
        out[f[0]] = value
        names.append(f[0])
        texts.append(txt)
    out["custom_field_names"] = names
    return finish(out, texts)
