"""Stream continuity and sync-word bookkeeping of the receive entry point."""
from common import *

SRC = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "golay23.c", "horus_api.c", "horus_l2.c"]


def run():
    c = Check("P09", "proof", "build/irabs rx <IR of the receive library>", ABSINT,
              ["the demodulator core is a stub delivering arbitrary new bits", "sync words with at most one wrong bit at the sampled offsets (thorough: every offset and every wrong bit)"])
    ll = c.ir(SRC)
    jobs = []
    for m in (0, 89, 90, 91):
        jobs.append(["rx", "mode=%d" % m, "sub=shift"] + ll)
        n, st = (16, 16) if THOROUGH else (3, 24 if m == 0 else 9)
        for k in range(n):
            jobs.append(["rx", "mode=%d" % m, "sub=list", "stride=%d" % st, "phase=%d" % ((SEED + k * (st // n)) % st)] + (["allerr=1"] if THOROUGH else []) + ll)
        if m:
            jobs.append(["rx", "mode=%d" % m, "sub=frame", "at=0,1,30,47,52"] + ll)
        else:
            for s in (22, 32, 48, 64, 96, 128):
                jobs.append(["rx", "mode=0", "sub=frame", "sizes=%d" % s] + ll)
    c.irabs(jobs, alarms=False)
    return c.finish({"rule": "after a call the bit window is the old one shifted by the newly demodulated bits, samples reach the demodulator once and in order, tracked sync positions are the old ones moved (expired ones dropped) plus every occurrence of the sync word with at most one wrong bit; a frame is reported in one call only"})


main(run)
