"""The transmitted layer-2 frame format."""
from common import *


def run():
    c = Check("P03", "proof", "build/irabs codec sizes=<shard> <IR of horus_l2.c, golay23.c>", ABSINT,
              ["payload sizes 1..128, every payload of a size in one abstract run"])
    sizes = list(range(1, 129))
    ll = c.ir(["horus_l2.c", "golay23.c"])
    rules = {"wire-format", "wire-length", "encode-returns"}
    c.irabs([["codec", "sizes=" + ",".join(map(str, sizes[i::NPROC]))] + ll for i in range(NPROC)], only=rules, alarms=False)
    c.count("payload_sizes", len(sizes))
    return c.finish({"rule": "each transmitted bit, as an affine form over the payload bits, equals the reference frame: two '$' bytes, then payload and Golay(23,12) parity bits interleaved and scrambled; the reported length is the number of bytes written", "exhaustive": True})


main(run)
