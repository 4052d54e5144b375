"""Models of the cffi binding and of audioop.ratecv for the analysis of horusdemodlib/demod.py.

The modem is a sequence: horus_nin asks for nins[i] samples before block i, block i yields outs[i] and leaves CRC flag, sync and
SNR symbols of that block.  Every access to the modem is recorded as an effect."""
from pylib import *
from ops import batom
from interp import Exc

D = "horusdemodlib.demod"
LIB = "_horus_api_cffi.lib."
MODES = {"HORUS_MODE_BINARY_V1": 0, "HORUS_MODE_BINARY_V2_256BIT": 1, "HORUS_MODE_BINARY_V2_128BIT": 2, "HORUS_MODE_RTTY_7N1": 89, "HORUS_MODE_RTTY_7N2": 90, "HORUS_MODE_RTTY_8N2": 91}
ASCII_OUT = 40


def atom(n): return cond(mk("sym", n, ty="bool"))


class Modem:
    def __init__(self, I, nins, outs=None, mfsk=4, opens=True):
        self.I, self.nins, self.outs, self.n, self.mfsk = I, list(nins), outs, 0, mfsk
        self.mode = 0
        self.fed = 0                      # resampler input frames
        for k, v in MODES.items(): I.attrs[LIB + k] = v
        self.handle = mk("modem", ty="ext")
        I.ext["test.nothing"] = lambda I, a, k: None
        F = {}
        def open_(I, a, k):
            I.effect("open", *[I.freeze(x) for x in a])
            self.mode = a[0]
            return self.handle if opens is True else ite(opens, self.handle, mk("nullptr", ty="ext"))
        F["horus_open_advanced"] = open_
        F["horus_open_advanced_sample_rate"] = open_
        F["horus_open"] = open_
        F["horus_close"] = lambda I, a, k: I.effect("close")
        F["horus_nin"] = lambda I, a, k: self.nin(self.n)
        F["horus_set_verbose"] = lambda I, a, k: I.effect("verbose", a[1])
        F["horus_get_max_demod_in"] = lambda I, a, k: 4 * max(self.nins)
        F["horus_get_max_ascii_out_len"] = lambda I, a, k: ASCII_OUT
        F["horus_get_mFSK"] = lambda I, a, k: mfsk
        F["horus_get_Fs"] = lambda I, a, k: 48000
        F["horus_get_mode"] = lambda I, a, k: sym("modem mode", "int")
        F["horus_set_freq_est_limits"] = lambda I, a, k: I.effect("limits", a[1], a[2])
        F["horus_crc_ok"] = lambda I, a, k: self.crc(self.n - 1)
        F["horus_rx"] = self.rx
        F["horus_get_modem_extended_stats"] = self.stats
        for k, f in F.items(): I.ext[LIB + k] = f
        for k in ("new", "cast", "buffer", "string", "from_buffer", "unpack"): I.ext["_horus_api_cffi.ffi." + k] = getattr(self, "ffi_" + k)
        I.attrs["_horus_api_cffi.ffi.NULL"] = mk("nullptr", ty="ext")
        I.ext["audioop.ratecv"] = self.ratecv

    # the modem
    def nin(self, i): return self.nins[min(i, len(self.nins) - 1)]
    def crc(self, i): return sym("crc %d" % i, "int", (0, 1))
    def snr(self, i): return sym("snr %d" % i, "float", (-100, 100))
    def sync(self, i): return sym("sync %d" % i, "int", (0, 1))
    def out(self, i): return (self.outs(i) if callable(self.outs) else self.outs[i % len(self.outs)]) if self.outs else b""

    def rx(self, I, a, k):
        i = self.n
        self.n += 1
        I.effect("rx", i, I.freeze(self.content(a[2])), I.freeze(a[3]), self.nin(i))
        # A packet is written with its terminator; what an earlier, rejected candidate of the same call wrote may still follow
        # (any 8-bit characters in 8N2 mode).  Without a candidate the buffer is left alone.
        junk = b"\xe9A\x00*7\n" if self.mode == 91 else b"4B7A" if self.mode == 0 else b"$A\x00*7\n"
        def write(x, old):
            if not x: return old if i % 2 else b"\0" + (junk * ASCII_OUT)[:ASCII_OUT - 1]
            return (x + b"\0" + junk + old[len(x) + 1 + len(junk):])[:ASCII_OUT]
        o = I.pure(write, self.out(i), self.content(a[1]))
        I.own(a[1]).m["content"] = ("content", o)
        return sym("rx result %d" % i, "int", (0, 1))

    def stats(self, I, a, k):
        i = self.n - 1
        m = I.own(a[1]).m
        f = I.newlist([sym("f%d %d" % (j, i), "float", (0, 24000)) for j in range(4)])
        eye = I.newlist([I.newlist([sym("eye %d %d %d" % (j, l, i), "float") for l in range(2)]) for j in range(2)])
        for q, v in (("snr_est", self.snr(i)), ("sync", self.sync(i)), ("clock_offset", sym("ppm %d" % i, "float", (-1e5, 1e5))), ("f_est", f), ("neyetr", 2), ("neyesamp", 2), ("rx_eye", eye)): m[q] = (q, v)

    # cffi
    def content(self, x):
        r = x
        if isinstance(x, Ref) and self.I.rec(x).kind == "obj": r = self.I.rec(x).m["content"][1]
        return MD.I_unref(self.I, r)

    def ffi_new(self, I, a, k):
        t = a[0].replace(" ", "")
        init = a[1] if len(a) > 1 else k.get("init")
        if "[]" in t:
            v = MD.I_unref(I, init)
            if isinstance(v, int): v = b"\0" * v
            return I.alloc(Rec("obj", m={"content": ("content", v)}, name="cdata"))
        return I.alloc(Rec("obj", m={q: (q, 0) for q in ("snr_est", "sync", "clock_offset", "neyetr", "neyesamp")}, name="cdata"))

    def ffi_cast(self, I, a, k): return a[1]
    def ffi_from_buffer(self, I, a, k): return I.alloc(Rec("obj", m={"content": ("content", MD.I_unref(I, a[-1]))}, name="cdata"))
    def ffi_buffer(self, I, a, k):
        v = self.content(a[0])
        return v if len(a) < 2 else I.pure(lambda x: slice_(x, 0, a[1]) if not isinstance(x, bytes) else x[:a[1]], v)
    ffi_unpack = ffi_buffer
    def ffi_string(self, I, a, k): return I.pure(lambda x: x.split(b"\0")[0] if isinstance(x, bytes) else mk("cstr", x, ty="bytes"), self.content(a[0]))

    # resampler: after N input frames it has given floor((N-1)*out/in)+1 frames (Modules/audioop.c)
    def ratecv(self, I, a, k):
        x, width, ch, src, dst, state = [MD.I_unref(I, v) for v in a[:6]]
        if isinstance(x, G) or isinstance(state, G): raise ops.Unknown("resampler state depends on a condition")
        L = len(x) if isinstance(x, bytes) else ops.length(x)
        if not isinstance(L, int): raise ops.Unknown("resampler input of unknown length")
        if L % (width * ch): I.raise_if(True, Exc("audioop.error", "not a whole number of frames"))
        n0 = 0 if state is None else state[1]
        n1 = n0 + L // (width * ch)
        I.effect("resample", n0, x, width, ch)
        if src == dst: return (x, ("ratecv", n1))
        given = lambda n: 0 if n == 0 else (n - 1) * dst // src + 1
        R = resampled()
        return (slice_(R, given(n0) * width * ch, given(n1) * width * ch) if n1 > n0 else b"", ("ratecv", n1))


def stream(nm="audio", n=1 << 20):
    s = sym(nm, "bytes")
    LEN[s] = n
    return s


def resampled(): return stream("resampled audio")
