def kind(line):
    """How an input line is handled."""
    text = line.rstrip()
    if text.startswith("$$"):
        return "text"
    if text.startswith("{"):
        return "statistics"
    return "binary"


def contents(line):
    return bytes.fromhex(line.rstrip())


def logged(line):
    return "$$" + line.rstrip().split("$")[-1] + "\n"


def annotated(decoded, snr, fest_mean, fest_spacing, freq_hz, baud_rate):
    out = {}
    for k in decoded:
        out[k] = decoded[k]
    out["snr"] = snr
    if freq_hz:
        out["f_centre"] = int(fest_mean) + int(freq_hz)
    if fest_spacing > 0:
        out["tone_spacing"] = int(fest_spacing)
    if baud_rate:
        out["baud_rate"] = int(baud_rate)
    return out


def text_of(line):
    return line.rstrip()
