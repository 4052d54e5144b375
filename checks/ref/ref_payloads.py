"""Reference rules for payload ID lists and custom field lists."""
import json
import struct


def ids(text, defaults):
    out = dict(defaults)
    for line in text.split("\n"):
        if line == "" or line.startswith("#"):
            continue
        p = line.split(",")
        if len(p) != 2:
            continue
        try:
            i = int(p[0])
        except ValueError:
            continue
        out[i] = p[1].strip()
    return out


def usable(e):
    if not isinstance(e, dict) or "struct" not in e or "fields" not in e:
        return False
    try:
        return struct.calcsize(e["struct"]) == 9
    except Exception:
        return False


def layouts(text, defaults):
    out = dict(defaults)
    try:
        j = json.loads(text)
    except ValueError:
        return out
    if not isinstance(j, dict):
        return out
    for k in j:
        e = j[k]
        if not usable(e):
            continue
        out[k] = {"struct": e["struct"], "fields": e["fields"]}
        if "other_payloads" in e:
            for o in e["other_payloads"]:
                out[o] = {"struct": e["struct"], "fields": e["fields"]}
    return out


def downloaded(url, marker, parse):
    import requests
    try:
        r = requests.get(url)
    except Exception:
        return None
    if marker not in r.text:
        return None
    return parse(r.text)
