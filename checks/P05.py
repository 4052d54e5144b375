"""Binary receiver: a packet is reported only with a matching CRC, as exact hex."""
from common import *

RULES = {"crc-gate", "exact-hex", "version", "crc-flag", "payload-size", "incomplete-frame", "valid-frame-accepted", "valid-checksum-accepted",
         "extract-result", "acceptance-possible", "exact-payload", "extract-returns"}
SRC = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "golay23.c", "horus_api.c", "horus_l2.c"]


def run():
    c = Check("P05", "proof", "build/irabs binary|rx <IR of the receive library>", ABSINT,
              ["every bit of the received frame is an independent variable; start positions are the listed ones (all incomplete ones; thorough: all)"])
    ll = c.ir(SRC)
    jobs = []
    for f in (128, 96, 64, 48, 32, 0):
        if THOROUGH:
            for k in range(64):
                jobs.append(["binary", "frame=%d" % f, "locs=0", "all=1", "from=%d" % k, "step=64", "tailall=%d" % (k == 0)] + ll)
        else:
            jobs.append(["binary", "frame=%d" % f] + ll)
        jobs.append(["binary", "frame=%d" % f, "locs=3", "tailall=0", "verbose=1"] + ll)
    for n in (128, 96, 64, 48, 32, 22):
        jobs.append(["rx", "mode=0", "sub=frame", "sizes=%d" % n] + ll)
    miss = c.irabs(jobs, only=RULES | {"frame-reported"}, alarms=False, allow_missing=("anchor function not found: extract_",))
    if len(miss) == len([j for j in jobs if j[0] == "binary"]):
        c.note("extraction helpers are gone: only the receive entry point was analysed")
    return c.finish({"rule": "on every abstract return path of frame extraction: reported => the CRC of the reported bytes matches at the tail (v1, 32-byte v2) or at the head (v3); text is the payload in upper-case hex with terminator; flag, version and size agree; a frame with a matching CRC is reported"})


main(run)
