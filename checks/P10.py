"""Memory safety, termination and the next sample count of the demodulator core, for any samples and any filter state."""
from common import *

SRC = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "golay23.c", "horus_api.c", "horus_l2.c"]
QUICK = ["mode=0", "mode=0 ts=250 lo=-300 hi=500", "mode=89 ts=270", "mode=90 lo=200 hi=700", "mode=91 P=004", "mode=0 Rs=50 Fs=800 ts=100",
         "mode=90 P=0016 lo=-9000 hi=-8500", "mode=0 ts=900 lo=700 hi=9000"]
MORE = ["mode=0 Rs=300 Fs=4800 P=0016 lo=200 hi=2000", "mode=90 Fs=4800 lo=300 hi=1200", "mode=89 Rs=25 Fs=400 ts=50", "mode=0 Fs=3200 ts=270", "mode=91 Rs=75 Fs=1200 lo=-500 hi=500",
        "mode=0 P=002", "mode=90 ts=1500", "mode=90 Fs=8000 lo=500 hi=1500"]


def run():
    c = Check("P10", "proof", "build/irabs dsp <IR of the receive library>", ABSINT + ["the C library's atan2f, floor, ceil, round, fabs return values in their mathematical range", "the FP environment raises no traps"],
              ["the modem configurations listed under coverage (sample rate, baud, oversampling, spacing, limits)"])
    c.note("every float kept between calls or supplied as a sample is an arbitrary value, infinities and NaN included")
    ll = c.ir(SRC)
    cfgs = os.environ["P10_CFG"].split(";") if "P10_CFG" in os.environ else QUICK + (MORE if THOROUGH else [])
    c.irabs([["dsp", "maxtime=780"] + k.split() + ll for k in cfgs], timeout=800)
    for b in c.broken:
        c.note("not decided: " + b)
    if len(c.broken) < len(cfgs):
        c.broken = []
    c.cov["configurations"] = cfgs
    return c.finish({"rule": "from every state the opened modem can reach by calls, one more block of arbitrary samples leaves every access inside its buffer, ends, holds no storage, writes bits 0 or 1, and asks for 1 to the reported maximum of samples; loops are unrolled to their end, a sorting loop is run on every order of its values"})


main(run)
