"""Bytes become modem symbols most significant bits first, after the preamble."""
from pylib import *


def run():
    p = PyCheck("P18")
    lens = list(range(0, 20)) + [22, 32, 45] if not THOROUGH else range(0, 130)
    pre = (0, 1, 3, 8, 20)

    def eng():
        I = p.engine()
        I.load("horusdemodlib.encoder"); I.load("ref_encode")
        e = Act(I, I.get("horusdemodlib.encoder", "Encoder"), [])
        I.st = e.st
        return I, e.ret

    def scen(n, k):
        I, e = eng()
        d = sym("data%d" % n, "bytes") if n else b""
        if n: LEN[d] = n
        args = [d] if k is None else [d, k]
        pn = 8 if k is None else k
        for meth, rule, per in (("bytes_to_4fsk_symbols", "symbols", 4), ("bytes_to_onebitperbyte", "bits", 8)):
            w = "%s, %d bytes, preamble %s" % (meth, n, "default" if k is None else k)
            a = Act(I, I.getattr(e, meth), list(args))
            b = Act(I, I.get("ref_encode", rule), [d, pn])
            p.same(a.outcome(), "return", True, "result", w)
            if a.pc is False: continue
            want = b.frozen()
            x = a.frozen()
            if isinstance(x, T): xs = [u(x, i, "B", "<") for i in range(length(x))] if isinstance(length(x), int) else None
            elif isinstance(x, bytes): xs = list(x)
            elif isinstance(x, tuple) and x and x[0] in ("list", "iter"): xs = [v for _, v in x[1:]]
            elif isinstance(x, tuple): xs = list(x)
            else: xs = None
            if xs is None: raise ops.Unknown("result of %s has no decidable length" % meth)
            p.ob(len(xs) == (n + pn) * per, "length", w, "%d elements instead of %d" % (len(xs), (n + pn) * per))
            if len(xs) != (n + pn) * per: continue
            for i, (q, r) in enumerate(zip(xs, [v for _, v in want[1:]])): p.same(q, r, True, "element", "%s, element %d (byte %d)" % (w, i, i // per))
    length = ops.length
    for n in lens: p.run("%d" % n, lambda: scen(n, None if n % 2 else 8))
    for k in pre: p.run("pre %d" % k, lambda: scen(5, k))
    return p.finish({"rule": "each symbol / bit term equals the reference bit field of its byte for all 256 values; lengths and preamble exact", "lengths": len(lens)})


pymain(run)
