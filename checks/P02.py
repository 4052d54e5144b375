"""Up to three wrong bits per codeword are corrected."""
from common import *


def run():
    c = Check("P02", "proof", "build/irabs golay|packeterr <IR of golay23.c, horus_l2.c>", ABSINT,
              ["all data words of a codeword are one abstract run; the 2048 error patterns of weight <= 3 are enumerated"])
    ll = c.ir(["horus_l2.c", "golay23.c"])
    g = [x for x in ll if "golay" in x]
    static = c.ir(["golay23.c"], [f for f in build_flags() if "RUN_TIME_TABLES" not in f], "st")
    rules = {"golay-correct", "golay-decode", "golay-encode", "packet-correct", "decode-returns"}
    jobs = [["golay"] + g, ["golay"] + static]
    for k in range(8):
        jobs.append(["packeterr", "sizes=22", "stride=8", "phase=%d" % k] + ll)
    st = 1 if THOROUGH else 61
    for n in (1, 2, 3, 16, 32, 48, 64, 96, 128):
        for k in range(4 if THOROUGH else 1):
            jobs.append(["packeterr", "sizes=%d" % n, "stride=%d" % (4 if THOROUGH else st), "phase=%d" % (k if THOROUGH else (SEED * 7) % st)] + ll)
    for n in (22, 32) if not THOROUGH else (22, 32, 48, 64, 96, 128):
        jobs.append(["packeterr", "sizes=%d" % n, "same=0", "single=1"] + ll)
    c.irabs(jobs, only=rules, alarms=False)
    return c.finish({"rule": "for every error pattern of weight <= 3 the decoder's abstract result is the data word, with all data bits as variables; at packet level the same pattern in every codeword, and every single wire bit"})


main(run)
