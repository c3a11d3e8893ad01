"""Shared driver helpers (run under PyPy with PYTHONPATH=/repo)."""
import json, os, random, signal, sys, warnings
warnings.simplefilter("ignore")
import numpy


class Malformed(Exception):
    pass


def I(x):
    """Encode something that must be an integer value (numpy scalars and integral floats included)."""
    if isinstance(x, (bool, numpy.bool_)):
        return int(x)
    try:
        if isinstance(x, numpy.ndarray):
            if x.size != 1:
                raise Malformed("array of size %d for a number" % x.size)
            x = x.reshape(-1)[0]
        f = float(x)
    except (TypeError, ValueError):
        raise Malformed("not a number: %s" % type(x).__name__)
    if f != f or f in (float("inf"), float("-inf")):
        raise Malformed("not finite")
    r = int(round(f))
    if r != f:
        raise Malformed("not integral")
    if abs(r) > 2 ** 31 - 1:
        raise Malformed("too large")
    return r


def IL(xs):
    return [I(x) for x in numpy.asarray(xs, dtype=object).reshape(-1)] if not isinstance(xs, (list, tuple)) else [I(x) for x in xs]


def IM(m):
    m = numpy.asarray(m)
    if m.ndim == 1:
        m = m.reshape(1, -1)
    return [[I(x) for x in row] for row in m]


def SC(x, k):
    """value * 2**k, which must be integral (exact dyadic arithmetic)."""
    return I(float(x) * (2.0 ** k))


BIG = 2 ** 30


def FX(x, scale=4096):
    """fixed point, rounded to nearest; saturates."""
    try:
        f = float(x)
    except (TypeError, ValueError):
        raise Malformed("not a number: %s" % type(x).__name__)
    if f != f:
        raise Malformed("nan")
    v = f * scale
    if v > BIG:
        return BIG
    if v < -BIG:
        return -BIG
    return int(round(v))


def FXL(xs, scale=4096):
    return [FX(x, scale) for x in numpy.asarray(xs, dtype=float).reshape(-1)]


class Hang(BaseException):
    """No answer within the CPU time a call may use."""


def _alarm(*_):
    raise Hang()


class _Watch(object):
    """CPU-time limit of one observed call: generous, and shorter once calls have been found to hang."""
    LIMIT, depth, hangs = 45.0, 0, 0

    def __enter__(self):
        _Watch.depth += 1
        if _Watch.depth == 1:
            signal.signal(signal.SIGVTALRM, _alarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, self.LIMIT if not self.hangs else 4.0 if self.hangs < 6 else .5)

    def __exit__(self, *a):
        _Watch.depth -= 1
        if _Watch.depth == 0:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def guarded(fn, dflt=None):
    """Run fn; returns (err, value). The exception class name is the observation."""
    try:
        with _Watch():
            return "", fn()
    except Hang:
        if _Watch.depth:
            raise
        _Watch.hangs += 1
        return "no answer", dflt
    except Malformed as e:
        return "malformed: %s" % e, dflt
    except AssertionError:
        return "AssertionError", dflt
    except Exception as e:  # noqa
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        return type(e).__name__, dflt


class Job(object):
    def __init__(self):
        with open(sys.argv[1]) as f:
            d = json.load(f)
        self.mode, self.seed, self.tier, self.out = d["mode"], d["seed"], d["tier"], d["out"]
        self.args, self.behaviours = d.get("args", {}), d.get("behaviours")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 7919 + 17)
        random.seed(self.seed)
        numpy.random.seed(self.seed % (2 ** 31))

    def write(self, name, traces):
        with open(os.path.join(self.out, name + ".json"), "w") as f:
            json.dump(traces, f)


def quiet():
    """Silence prints of the code under test."""
    sys.stdout = open(os.devnull, "w")


def main(modes):
    job = Job()
    so = sys.stdout
    quiet()
    try:
        modes[job.mode](job)
    finally:
        sys.stdout = so
