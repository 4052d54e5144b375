"""Layer-2 codec round trip: decode(encode(payload)) == payload for every payload of every supported size."""
from common import *


def run():
    c = Check("P01", "proof", "build/irabs codec sizes=<shard> <IR of horus_l2.c, golay23.c>", ABSINT,
              ["payload sizes 1..128; all 2^(8n) payloads of a size are one abstract run (every payload bit is an independent variable)"])
    sizes = list(range(1, 129))
    for tag, fl in (("", None), ("st", [f for f in build_flags() if "RUN_TIME_TABLES" not in f])):
        ll = c.ir(["horus_l2.c", "golay23.c"], fl, tag)
        if tag and not THOROUGH:
            sizes = [16, 22, 32, 48, 64, 96, 128]
        shards = [sizes[i::NPROC] for i in range(NPROC)] if len(sizes) > 7 else [[s] for s in sizes]
        c.irabs([["codec", "sizes=" + ",".join(map(str, s))] + ll for s in shards if s],
                only={"round-trip", "encode-returns", "decode-returns", "wire-length"}, alarms=False)
        c.count("payload_sizes", len(sizes))
    return c.finish({"rule": "with payload bits x0..x(8n-1) as variables, the abstract result of decoding the abstract result of encoding is exactly x0..x(8n-1); obligations per size and bit", "exhaustive": True})


main(run)
