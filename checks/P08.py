"""Closing a modem releases everything; handles are independent."""
from common import *

SRC = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "golay23.c", "horus_api.c", "horus_l2.c"]


def run():
    c = Check("P08", "proof", "build/irabs life <IR of the receive library>", ABSINT,
              ["the configurations (mode, baud rate, tone spacing, sample rate, oversampling) are the listed ones", "allocation succeeds"])
    ll = c.ir(SRC)
    ps = ["-1:-1:48000:8", "50:100:48000:8", "300:500:48000:10", "100:270:8000:8"]
    if THOROUGH:
        ps += ["25:270:48000:8", "200:400:48000:12", "600:1000:48000:8", "1200:1200:48000:8", "100:270:48000:16", "50:-1:8000:10", "100:270:44100:9"]
    jobs = [["life", "modes=%d" % m, "params=" + p] + ll for m in (0, 89, 90, 91) for p in ps]
    c.irabs(jobs, only={"handle-storage-freed", "handles-independent", "open-returns", "close-returns", "nin", "reported-size", "rx-returns"}, alarms=True)
    c.count("configurations", len(ps) * 4)
    return c.finish({"rule": "typestate of every heap object over open/configure/receive/close sequences: each object allocated by a handle is freed exactly once by its close, and no other handle's object is freed"})


main(run)
