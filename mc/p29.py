"""P29: the native matcher and suppression stay inside their arrays and return what they take.

The extensions are built with AddressSanitizer, UndefinedBehaviorSanitizer and their own assertions; every case is
watched for reports, for the end of the process, and for memory that repeated calls do not give back."""
import ctypes, glob, itertools, math, os
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, Rng, NoAnswer, SAN
from models import bits, variants, shapes

rng = None
LIB = ctypes.CDLL(None)


def reports():
    fs = glob.glob(os.path.join(SAN, "r.*%d" % os.getpid()))
    return "\n".join(open(f, errors="replace").read()[:1500] for f in fs)


def watch(what):
    """After each call: nothing was reported."""
    tick()
    r = reports()
    expect(not r, lambda: "%s\n%s" % (what() if callable(what) else what, r))


def heap():
    return LIB.__sanitizer_get_current_allocated_bytes()


def held(f, what):
    """Repeated calls hold no more memory than before."""
    f()
    s = []
    for _ in range(5):
        f()
        s.append(heap())
    expect(not all(a < b for a, b in zip(s, s[1:])), lambda: "%s: every further call keeps memory (bytes in use %s)" % (what() if callable(what) else what, s))


def call(f, *a, **k):
    """The result, or the Python exception that rejects the input."""
    try:
        return f(*a, **k)
    except Exception as e:
        return "rejected: %s" % type(e).__name__


def match(a, b, md, oc=None, seed=7, devs=()):
    from pyEdgeEval._lib import correspond_pixels
    rng.start(seed, devs)
    return call(correspond_pixels, a, b, md) if oc is None else call(correspond_pixels, a, b, md, oc)


def brief(r):
    if isinstance(r, str):
        return r
    if isinstance(r, tuple):
        return tuple(brief(x) for x in r[:1])
    return (r.shape, int(np.count_nonzero(r)))


TOLS = [1e-9, 0.3, 1.0, 1.5, 2.3, 5.0, 40.0]


def check_pair(c):
    h, w = c["shape"]
    a, b = bits(c["a"], h, w), bits(c["b"], h, w)
    out = []
    for t in c.get("tols", TOLS):
        r = match(a, b, t / math.hypot(h, w))
        watch(lambda: "matching\n%s\n%s\nwithin %r pixels" % (a.astype(int), b.astype(int), t))
        expect(not isinstance(r, str), lambda: "matching %s %s: %s" % (a, b, r))
        out.append(brief(r))
    if c.get("vary"):
        for (ka, va), (kb, vb) in zip(variants(a, KIND), variants(b, KIND[2:] + KIND[:2])):
            for oc in (1.01, 100.0, 5000.0):
                match(va, vb, 0.5, oc)
                watch(lambda: "matching %s %s maps\n%s\n%s" % (ka, kb, a, b))
    return tuple(out)


KIND = ["bool", "uint8", "int64", "float32", "float16", "F", "strided", "flipped", "transposed"]


def blocks(n1, n2, gap):
    """n1 and n2 pixels, all within reach of each other."""
    a = np.zeros((9, 3 + max(n1, n2)), bool)
    a[2, 1:1 + n1] = True
    b = np.zeros_like(a)
    b[2 + gap, 1:1 + n2] = True
    return a, b


def check_sizes(c):
    """Every number of nodes on either side, every extreme of every (strided) random draw."""
    a, b = blocks(c["n1"], c["n2"], c["gap"])
    if c["swap"]:
        a, b = a.T.copy(), b.T.copy()
    md = c["tol"] / math.hypot(*a.shape)
    r = match(a, b, md)
    n = rng.count()
    watch(lambda: str(c))
    expect(not isinstance(r, str), lambda: "%s: %s" % (c, r))
    out = [brief(r), n]
    for d in range(0, n, max(1, n // c["draws"])):
        for v in (0.0, 0.5, 1 - 2.0 ** -48):
            match(a, b, md, devs=[(d, v)])
            watch(lambda: "%s with draw %d = %r" % (c, d, v))
    # the same extreme all the time
    for v in (0.0, 1 - 2.0 ** -48):
        match(a, b, md, devs=[(d, v) for d in range(min(n, 60))])
        watch(lambda: "%s with all draws = %r" % (c, v))
    return tuple(out)


def pattern(k, h, w):
    y, x = np.mgrid[:h, :w]
    return [lambda: (x + y) % 2 == 0, lambda: x % 3 != 1, lambda: (x * 3 + y * 5) % 7 < 4, lambda: np.ones((h, w), bool), lambda: np.zeros((h, w), bool),
            lambda: (y == h // 2) | (x == 1), lambda: (x == 0) | (y == 0) | (x == w - 1) | (y == h - 1), lambda: (x * 7919 + y * 104729 + x * y) % 13 == 0, lambda: (x == w - 1) & (y == h - 1)][k]()


def check_large(c):
    h, w = c["shape"]
    a, b = pattern(c["i"], h, w), pattern(c["j"], h, w)
    r = match(a, b, c["tol"] / math.hypot(h, w))
    watch(lambda: str(c))
    expect(not isinstance(r, str), lambda: "%s: %s" % (c, r))
    return brief(r), rng.count()


ORI = [0.0, math.pi / 4, math.pi / 2, 2.0, -math.pi, 1e300, float("nan"), float("inf"), -float("inf")]
VAL = [0.0, 1.0, 0.5, -1.0, float("nan"), float("inf"), 1e308]


def check_nms(c):
    """Every assignment of values and orientations to the pixels of a small map."""
    from pyEdgeEval._lib import nms
    h, w = c["shape"]
    e, o = np.zeros(h * w), np.zeros(h * w)
    v, t = c["e"], c["o"]
    for i in range(h * w):
        v, k = divmod(v, len(c["vals"]))
        e[i] = VAL[c["vals"][k]]
        t, k = divmod(t, len(c["oris"]))
        o[i] = ORI[c["oris"][k]]
    e, o = e.reshape(h, w), o.reshape(h, w)
    out = []
    for r, s, m in c["pars"]:
        x = call(nms, e, o, r, s, m)
        watch(lambda: "nms(r=%r, s=%r, m=%r)\n%s\n%s" % (r, s, m, e, o))
        expect(isinstance(x, np.ndarray) and x.shape == e.shape, lambda: "nms(r=%r, s=%r, m=%r)\n%s\n%s\n%s" % (r, s, m, e, o, x))
        out.append(brief(x))
    return tuple(out)


def check_nms_shape(c):
    from pyEdgeEval._lib import nms
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    e = ((x * 31 + y * 17 + x * y) % 11 + 1) / 11.0
    o = (x * 5 + y * 3) % 16 * (math.pi / 8) - math.pi
    for k in range(c["turn"]):
        o = o + 0.37
    if c["kind"] == "F":
        e, o = np.asfortranarray(e), np.asfortranarray(o)
    elif c["kind"] == "cut":
        big = np.zeros((2 * h, 2 * w))
        big[::2, 1::2] = e
        e = big[::2, 1::2]
    elif c["kind"] == "f4":
        e, o = e.astype(np.float32), o.astype(np.float32)
    r = call(nms, e, o, c["r"], c["s"], 1.01)
    watch(lambda: str(c))
    expect(isinstance(r, np.ndarray), lambda: "%s: %s" % (c, r))
    return brief(r)


def check_pre(c):
    """The whole preprocessing step on maps with one odd value."""
    from pyEdgeEval.preprocess import fast_nms
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    p = np.exp(-(x - w / 2) ** 2 / 4.0)
    if c["pos"] < h * w:
        p.reshape(-1)[c["pos"]] = VAL[c["val"]]
    r = call(fast_nms, p.astype(c["dt"]), r=c["r"], s=c["s"])
    watch(lambda: str(c))
    return brief(r)


def check_reject(c):
    """Shapes and values that cannot be handled are refused by a Python exception (or handled), never by a crash."""
    from pyEdgeEval._lib import correspond_pixels, nms
    A = lambda s: np.ones(s)
    out = []
    for s0, s1 in itertools.product(c["first"], c["second"]):
        for f in (correspond_pixels, nms):
            r = call(f, A(s0), A(s1))
            watch("%s on arrays of shape %s and %s" % (f.__name__, s0, s1))
            expect(tuple(s0) == tuple(s1) or isinstance(r, str), lambda: "%s accepts arrays of shape %s and %s" % (f.__name__, s0, s1))
            out.append(isinstance(r, str))
    a = A((3, 4))
    for md, oc in itertools.product((0, -1.0, 0.1, "x", None, [1]), (1, 0, -5, 100.0, "y", None)):
        out.append(brief(call(correspond_pixels, a, a, md, oc)))
        watch("max_dist=%r outlier_cost=%r" % (md, oc))
        bad = not isinstance(md, float) or md <= 0 or not isinstance(oc, float)
        expect(isinstance(out[-1], str) == bad, lambda: "max_dist=%r outlier_cost=%r: %s" % (md, oc, out[-1]))
    for x in (a.astype(complex), a.astype(object), np.array([["a", "b"], ["c", "d"]]), [[1, 0]], None, 3, np.ones((2, 2, 2)), np.ones(3), np.ones(())):
        for f in (correspond_pixels, nms):
            out.append(type(call(f, x, x)).__name__)
            watch("%s on %r" % (f.__name__, x))
    return tuple(out)


def check_held(c):
    from pyEdgeEval._lib import nms
    h, w = c["shape"]
    a, b = pattern(c["i"], h, w), pattern(c["j"], h, w)
    md = c["tol"] / math.hypot(h, w)
    held(lambda: match(a, b, md), lambda: "matching %s" % c)
    held(lambda: nms(a.astype(float), b.astype(float), 2, 3), lambda: "nms %s" % c)
    held(lambda: match(a, b[:, :-1], md), lambda: "rejected matching %s" % c)
    held(lambda: match(a, b, -md), lambda: "rejected tolerance %s" % c)
    watch(lambda: str(c))
    return brief(match(a, b, md))


def build(tier):
    global rng
    big = tier == "thorough"
    if not SAN:
        raise NoAnswer("not running with the sanitizers")
    rng = Rng()
    try:
        heap()
    except AttributeError:
        raise NoAnswer("no sanitizer run time")
    # the monitor itself: an overflow provoked on purpose in a child is reported
    from core import in_child
    def provoke():
        p = LIB.malloc
        p.restype = ctypes.c_void_p
        q = p(10)
        LIB.memset(ctypes.c_void_p(q), 1, 11)
        return reports()
    r = in_child(provoke)
    if r[0] != "ok" or "heap-buffer-overflow" not in r[1]:
        raise NoAnswer("the sanitizer does not report: %s" % (r,))
    sc = []

    def tbl(shp, per):
        offs = [1 << (2 * h * w) for h, w in shp]
        def case(i):
            for (h, w), n in zip(shp, offs):
                if i < n:
                    return dict(shape=(h, w), a=i >> (h * w), b=i & ((1 << (h * w)) - 1), **per)
                i -= n
        return sum(offs), case
    n, case = tbl(shapes(4 if not big else 5, 5), dict(vary=True))
    sc.append(Scope("pairs", n, case, check_pair, note="all pairs of maps with <= %d pixels, 7 tolerances, 9 dtypes/layouts, 3 outlier costs" % (4 if not big else 5)))
    n, case = tbl([(2, 3), (3, 2), (1, 6), (6, 1)], {} if big else dict(tols=[1.0, 2.3, 40.0]))
    sc.append(Scope("pairs_6px", n, case, check_pair, note="all pairs"))
    if big:
        n, case = tbl([(3, 3)], dict(tols=[1.0, 2.3]))
        sc.append(Scope("pairs_3x3", n, case, check_pair, note="all pairs"))
    N = list(range(1, 10)) + [12, 13, 15, 16, 20, 31, 33, 40, 64] + ([17, 25, 50, 100] if big else [])
    sc.append(product_scope("node_counts", [("n1", N), ("n2", N), ("gap", [0, 1, 3]), ("tol", [1.0, 3.0, 200.0]), ("swap", [0, 1]), ("draws", [4 if not big else 60])], check_sizes,
                            note="every number of nodes on either side, with every extreme of (strided) random draws of the outlier selection", timeout=300))
    L = [(1, 1), (1, 40), (40, 1), (2, 60), (17, 23), (40, 60), (64, 64)] + ([(120, 160)] if big else [])
    sc.append(product_scope("large_maps", [("shape", L), ("i", range(9)), ("j", range(9)), ("tol", [0.5, 1.0, 2.3, 5.0])], check_large, note="pairs of 9 patterns", timeout=300))
    P = [(1, 5, 1.01), (0, 0, 1.0), (2, 1, 0.0), (1000, 1000, 1.01), (-1, -3, 1.01)]
    sc.append(product_scope("nms_2x2", [("shape", [(2, 2)]), ("vals", [(0, 1, 2)]), ("oris", [(0, 1, 5, 6, 7)]), ("e", range(3 ** 4)), ("o", range(5 ** 4)), ("pars", [P])], check_nms, note="all 2x2 maps over 3 values and 5 orientations (two of them not finite)"))
    sc.append(product_scope("nms_values", [("shape", [(1, 2), (2, 1), (1, 3), (3, 1)]), ("vals", [tuple(range(7))]), ("oris", [(0, 2, 3, 6, 8)]), ("e", range(7 ** 3)), ("o", range(5 ** 3)), ("pars", [P])], check_nms, note="maps of up to 3 pixels over 7 values (NaN, infinities, negative) and 5 orientations"))
    sc.append(product_scope("nms_shapes", [("shape", [(h, w) for h in range(1, 8) for w in range(1, 8)] + [(1, 30), (30, 1), (13, 29)]), ("kind", ["C", "F", "cut", "f4"]), ("turn", range(6)), ("r", [0, 1, 2, 5, 50]), ("s", [0, 1, 2, 5, 50])], check_nms_shape, note="all sizes up to 7x7, layouts, radii and borders"))
    sc.append(product_scope("preprocessing", [("shape", [(1, 1), (1, 9), (9, 1), (6, 7), (12, 11)]), ("pos", range(0, 133, 1 if big else 5)), ("val", range(len(VAL))), ("dt", ["float64", "float32"]), ("r", [1, 3]), ("s", [0, 5])], check_pre, note="one odd value at every position"))
    S = [(0, 0), (0, 3), (3, 0), (1, 1), (2, 3), (3, 2), (6,), (0,), (), (1, 2, 3), (2, 3, 1)]
    sc.append(list_scope("rejected", [dict(first=[s], second=S) for s in S], check_reject, note="shapes, values and types that do not fit"))
    sc.append(product_scope("memory", [("shape", [(1, 1), (5, 7), (17, 23), (40, 60)]), ("i", range(9)), ("j", range(9)), ("tol", [1.0, 2.3])], check_held, note="repeated calls hold no further memory"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="every case runs in extensions built from the current sources with AddressSanitizer, UndefinedBehaviorSanitizer and their assertions; after every call the sanitizer reports are read, a process that ends is a violation, and repeated calls must not increase the bytes in use; the matcher's random draws are chosen by the explorer",
                    assumptions=["the sanitizers see the accesses of the compiled extensions, not those of numpy and OpenCV", "signed overflow wraps, as the package is built (-fno-strict-overflow)"])
