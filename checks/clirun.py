"""Runs the analysis of the C receiver's main() (irabs cli) for one command line, and that of the Python receiver's main()."""
import itertools
from cffimodel import *
import common
from ops import ncmp

CMODES = {"RTTY": 90, "rtty": 90, "RTTY7N2": 90, "rtty7n2": 90, "RTTY7N1": 89, "rtty7n1": 89, "RTTY8N2": 91, "rtty8n2": 91, "BINARY": 0, "binary": 0}


def cli(ll, argv, blocks=3, mfsk=4, nin=8, stderr=0):
    name = " ".join(argv)
    cmd = ["/usr/bin/env", "bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", common.IRABS, "cli", "argv=" + "|".join(["horus_demod"] + argv), "blocks=%d" % blocks, "mfsk=%d" % mfsk, "nin=%d" % nin, "stderr=%d" % stderr] + ll
    try: q = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: return name, None, None, "timeout"
    ends, stats = [], None
    for l in q.stdout.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if "broken" in j: return name, None, None, j["broken"]
        if "exit" in j: ends.append(j)
        elif "stats" in j: stats = j["stats"]
        elif "alarm" in j: ends.append({"alarm": j})
    if stats is None: return name, None, None, "no result (exit %s) %s" % (q.returncode, q.stderr[-300:])
    return name, ends, stats, None


def pymain_run(p, args, outs, size, nins=(8, 8, 9, 7, 8, 10, 6, 8), mfsk=4):
    """(activation, modem, bytes read, sizes asked for) of demod.main() with parsed arguments `args` and a recording of `size` bytes."""
    I = p.engine(unroll=60)
    M = Modem(I, nins, outs=outs, mfsk=mfsk)
    A = dict(args)
    I.attrs["argparse"] = A
    I.attrs["argparse.defaults"] = True
    S = stream()
    pos = [0]
    sizes = []
    def read(I, a, k):          # a buffered reader returns fewer bytes than asked for at the end of the file only
        want = a[0] if a and a[0] is not None else -1
        if not isinstance(want, int): raise ops.Unknown("read size depends on a condition")
        sizes.append((want, M.nin(M.n)))
        got = min(want if want >= 0 else size, size - pos[0])
        if got == 0: return b""
        v = slice_(S, pos[0], pos[0] + got)
        pos[0] += got
        return v
    files = {}
    def rd(src):
        def f(I, a, k):
            I.effect("read", src)
            return read(I, a, k)
        return f
    I.ext["sys.stdin.buffer.read"] = rd("stdin")
    I.ext["method:infile.read"] = lambda I, x, a, k: rd(x.args[0])(I, a, k)
    def opn(I, a, k):
        m = a[1] if len(a) > 1 else k.get("mode", "r")
        I.effect("fopen", a[0], m)
        return mk("infile" if "r" in m else "outfile", a[0], ty="ext")
    I.ext["open"] = opn
    I.ext["sys.stdout.write"] = lambda I, a, k: I.effect("out", "stdout", M.n - 1, I.freeze(a[0]))
    I.ext["sys.stdout.flush"] = lambda I, a, k: None
    I.ext["method:outfile.write"] = lambda I, x, a, k: I.effect("out", x.args[0], M.n - 1, I.freeze(a[0]))
    I.ext["method:outfile.flush"] = lambda I, x, a, k: None
    I.ext["method:outfile.close"] = I.ext["method:infile.close"] = lambda I, x, a, k: None
    I.ext["sys.stderr.write"] = lambda I, a, k: I.effect("out", "stderr", M.n - 1, I.freeze(a[0]))
    I.ext["sys.stderr.flush"] = lambda I, a, k: None
    def prt(I, a, k):
        f = k.get("file")
        I.effect("out", "stderr" if isinstance(f, Ext) and f.name == "sys.stderr" else "stdout", M.n - 1, ("line", tuple(I.freeze(x) for x in a)))
    I.ext["print"] = prt
    I.ext["json.dumps"] = lambda I, a, k: mk("statsline", I.freeze(a[0]), ty="str")
    I.load(D)
    a = Act(I, I.get(D, "main"), [])
    return a, M, pos, sizes
