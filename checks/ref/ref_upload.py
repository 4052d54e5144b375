import gzip
import json


def body(packets):
    return gzip.compress(json.dumps(packets).encode("utf-8"))
