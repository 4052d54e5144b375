REQUIRED = ["EbNodB", "ppm", "f1_est", "f2_est", "samp_fft"]


def tones(r):
    if "f3_est" not in r:
        return [r["f1_est"], r["f2_est"]]
    if "f4_est" not in r:
        return [r["f1_est"], r["f2_est"], r["f3_est"], 0.0]
    return [r["f1_est"], r["f2_est"], r["f3_est"], r["f4_est"]]


def state(history, window, peak_hold):
    """Published values after the records (time, record), oldest first: (snr, ppm, spacing, tones, mean tone)."""
    if len(history) == 0:
        return (-999.0, 0.0, 0.0, [0.0, 0.0, 0.0, 0.0], 0.0)
    now = history[-1][0]
    snrs = []
    ppms = []
    spacings = []
    for when, r in history:
        if now - when < window:
            t = tones(r)
            snrs.append(r["EbNodB"])
            ppms.append(r["ppm"])
            spacings.append((t[-1] - t[0]) / (len(t) - 1))
    last = tones(history[-1][1])
    if peak_hold:
        snr = max(snrs)
    else:
        snr = sum(snrs) / len(snrs)
    return (snr, sum(ppms) / len(ppms), sum(spacings) / len(spacings), last, sum(last) / len(last))
