"""Frame extraction and decoding touch only storage that belongs to them."""
from common import *

SRC = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "golay23.c", "horus_api.c", "horus_l2.c"]


def run():
    c = Check("P07", "proof", "build/irabs binary|rtty|rx|codec <IR of the receive library>", ABSINT,
              ["text and sample buffers have exactly the sizes the library reports", "the demodulator core is replaced by a stub that writes its bit and soft-bit outputs"])
    ll = c.ir(SRC)
    cod = [x for x in ll if "horus_l2" in x or "golay" in x]
    only = {"reported-size", "rx-leak"}
    jobs = []
    for m in (89, 90, 91):
        for loc in ("0", "53", "54", "-1", "-60"):
            jobs.append(["rtty", "mode=%d" % m, "sub=any", "locs=" + loc] + ll)
    if THOROUGH:
        for m in (89, 90, 91):
            for k in range(40):
                jobs.append(["rtty", "mode=%d" % m, "sub=any", "locs=0", "all=1", "from=%d" % k, "step=40"] + ll)
    for f in (128, 96, 64, 48, 32, 0):
        jobs.append(["binary", "frame=%d" % f] + ll)
        jobs.append(["binary", "frame=%d" % f, "locs=3", "tailall=0", "verbose=1"] + ll)
    for m in (0, 89, 90, 91):
        jobs.append(["rx", "mode=%d" % m, "sub=shift"] + ll)
        jobs.append(["rx", "mode=%d" % m, "sub=frame"] + ll)
        jobs.append(["rtty", "mode=%d" % m, "sub=text", "stars=2,8,90", "locs=0,-1", "mustaccept=0", "dollars=-1,3", "verbose=1"] + ll) if m else None
        jobs.append(["rx", "mode=%d" % m, "sub=list", "stride=20", "phase=%d" % (SEED % 20)] + ll)
    sizes = list(range(1, 129))
    for i in range(4):
        jobs.append(["codec", "sizes=" + ",".join(map(str, sizes[i::4]))] + cod)
    jobs.append(["crc", "sizes=0-126"] + [x for x in ll if "horus_l2" in x] )
    c.irabs(jobs, only=only, alarms=True, allow_missing=("anchor function not found: extract_",))
    return c.finish({"rule": "every load, store, shift, division and branch executed abstractly is in bounds of a live object, initialised and defined for all values of the unknown bits"})


main(run)
