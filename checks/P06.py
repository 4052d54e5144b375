"""RTTY receiver: a line is reported only with a matching hexadecimal CRC, verbatim."""
from common import *

SRC = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "golay23.c", "horus_api.c", "horus_l2.c"]


def run():
    c = Check("P06", "proof", "build/irabs rtty|rx <IR of the receive library>", ABSINT,
              ["text characters are variables (7 or 8 unknown bits each); the position of the checksum mark and the checksum characters are enumerated as listed"])
    ll = c.ir(SRC)
    jobs = []
    for mode in (89, 90, 91):
        jobs.append(["rtty", "mode=%d" % mode, "sub=text", "sweep=1", "stars=8"] + ll)
        jobs.append(["rtty", "mode=%d" % mode, "sub=text", "stars=2,3,5,20,60,90", "classes=0,4,6", "quads=30303030,41424344,61626364,46464646", "dollars=-1,2,3"] + ll)
        jobs.append(["rtty", "mode=%d" % mode, "sub=text", "stars=8,40", "locs=1,13,52", "quads=30613946,39304130,30303067"] + ll)
        jobs.append(["rx", "mode=%d" % mode, "sub=frame"] + ll)
        if THOROUGH:
            for k in range(2, 110, 4):
                jobs.append(["rtty", "mode=%d" % mode, "sub=text", "stars=%d,%d,%d,%d" % (k, k + 1, k + 2, k + 3), "classes=0,4,5,6", "quads=30303030,41424344,61626364,46464646,30613946", "dollars=-1,2,3,4", "mustaccept=%d" % (k > 10)] + ll)
    miss = c.irabs(jobs, alarms=False, only=None, allow_missing=("anchor function not found: extract_",))
    return c.finish({"rule": "on every abstract return path: reported => the four characters after '*' are hexadecimal digits whose value equals the CRC of the characters between the '$' run and '*', and the reported text is the received characters; a line with a matching CRC is reported"})


main(run)
