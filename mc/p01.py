"""P01: every reported correspondence is a valid one-to-one in-tolerance pairing."""
import itertools, math
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, Rng
from models import bits, variants, shapes

rng = None
TOLS = [0.3, 0.999, 1.0, 1.3, 1.5, 2.0, 2.3, 3.7, 9.0]      # pixels


def pairing(a, b, m0, m1, tol):
    """Validity of a pairing; returns the list of (pixel, pixel)."""
    h, w = a.shape
    expect(m0.shape == a.shape and m1.shape == b.shape, "match maps have another shape than the inputs")
    i0, i1 = np.argwhere(m0 != 0), np.argwhere(m1 != 0)
    where = lambda: "\nmap1\n%s\nmap2\n%s\nmatch1\n%s\nmatch2\n%s\ntolerance %r px" % (a.astype(int), b.astype(int), m0, m1, tol)
    expect(not ((m0 != 0) & ~a).any(), lambda: "an unset pixel of map 1 is reported as matched" + where())
    expect(not ((m1 != 0) & ~b).any(), lambda: "an unset pixel of map 2 is reported as matched" + where())
    expect(len(i0) == len(i1), lambda: "the two match maps describe different pairings" + where())
    used = set()
    out = []
    for y, x in i0.tolist():
        p = m0[y, x]
        expect(p == int(p) and 1 <= p <= h * w, lambda: "partner position %r is outside the image" % p + where())
        px, py = divmod(int(p) - 1, h)
        expect(b[py, px], lambda: "partner of (%d,%d) is unset" % (y, x) + where())
        expect((py, px) not in used, lambda: "pixel (%d,%d) is matched twice" % (py, px) + where())
        used.add((py, px))
        expect(m1[py, px] == x * h + y + 1, lambda: "the match maps disagree about (%d,%d)-(%d,%d)" % (y, x, py, px) + where())
        d2 = (y - py) ** 2 + (x - px) ** 2
        expect(d2 <= tol * tol + 1e-9, lambda: "(%d,%d)-(%d,%d) is further than the tolerance" % (y, x, py, px) + where())
        out.append(((y, x), (py, px)))
    return out


def run(a, b, tol, oc=100.0, unit=True):
    from pyEdgeEval._lib import correspond_pixels
    diag = math.sqrt(a.shape[0] ** 2 + a.shape[1] ** 2)
    md = tol / diag
    ka, kb = a.copy(), b.copy()
    m0, m1, cost, o = correspond_pixels(a, b, md, oc) if oc != 100.0 else correspond_pixels(a, b, max_dist=md)
    expect(np.array_equal(a, ka) and np.array_equal(b, kb) and a.dtype == ka.dtype, "the matcher modified its inputs")
    costs(a, b, m0, m1, cost, o, md * diag, oc)
    return m0, m1, md * diag


def costs(a, b, m0, m1, cost, o, tol, oc):
    """The reported costs belong to the reported pairing (the matcher reports 0 when no pixel has a partner in reach)."""
    expect(abs(o - oc * tol) <= 1e-9 * oc * tol, lambda: "the cost of an unmatched pixel is reported as %r, not %r x %r" % (o, oc, tol))
    pairs = [(y, x) + tuple(reversed(divmod(int(m0[y, x]) - 1, a.shape[0]))) for y, x in zip(*np.nonzero(m0))]
    lone = np.count_nonzero(a) + np.count_nonzero(b) - np.count_nonzero(m0) - np.count_nonzero(m1)
    want = sum(math.hypot(y - v, x - u) for y, x, v, u in pairs) + lone * o
    expect(abs(cost - want) <= 1e-6 * max(1, want) or (cost == 0 and not pairs), lambda: "the reported cost is %r, but %d pairs and %d unmatched pixels cost %r\n%s\n%s\ntolerance %r, outlier cost %r" % (cost, len(pairs), lone, want, (a != 0).astype(int), (b != 0).astype(int), tol, oc))


def check_pair(c, vary=False):
    h, w = c["shape"]
    a, b = bits(c["a"], h, w), bits(c["b"], h, w)
    seen = []
    for t in c.get("tols", TOLS):
        rng.start(7)
        m0, m1, tol = run(a, b, t)
        pr = pairing(a, b, m0, m1, tol)
        tick()
        seen.append(len(pr))
        if vary:
            for (ka, va), (kb, vb) in list(zip(variants(a, KIND), variants(b, KIND[1:] + KIND[:1]))) + list(zip(weights(a), list(weights(b))[2:] + list(weights(b))[:2])):
                rng.start(7)
                n0, n1, _ = run(va, vb, t)
                expect(np.array_equal(m0, n0) and np.array_equal(m1, n1), lambda: "the pairing depends on dtype or layout (%s, %s)\n%s\n%s" % (ka, kb, a.astype(int), b.astype(int)))
                tick()
            for oc in (1.01, 2.0, 1000.0):
                m0, m1, tol = run(a, b, t, oc)
                pairing(a, b, m0, m1, tol)
                tick()
    return tuple(seen)


def weights(a):
    """The same map with set pixels that are not 1 (any non-zero pixel is set)."""
    y, x = np.mgrid[:a.shape[0], :a.shape[1]]
    yield "uint8 255", a * np.uint8(255)
    yield "uint16 256", (a * 256).astype(np.uint16)
    yield "float 0.5", a * 0.5
    yield "int64 2**32", a * np.int64(2 ** 32)
    yield "float32 strengths", (a * (1 + (x * 3 + y) % 7) / 8.0).astype(np.float32)
    yield "int32 512", (a * 512).astype(np.int32)
    yield "float 1e-30", a * 1e-30


KIND = ["bool", "uint8", "int32", "float32", "F", "strided", "flipped", "transposed"]


def dense(seed):
    """Fixed pool of dense maps (many candidates per pixel: the random-outlier regime)."""
    pool = []
    g = np.arange
    for h, w in ((4, 4), (3, 6), (5, 7), (2, 12), (8, 9)):
        y, x = np.mgrid[:h, :w]
        for k, f in enumerate((lambda: (x + y) % 2 == 0, lambda: x % 3 != 1, lambda: (x * 3 + y * 5) % 7 < 4, lambda: np.ones((h, w), bool), lambda: (y == h // 2) | (x == 1))):
            pool.append(f())
    return pool


def check_rng(c):
    """c: images, tolerance, set of deviating draws -> validity (never a property of the particular draws)."""
    a, b = POOL[c["i"]], POOL[c["j"]]
    out = []
    for vals in c["values"]:
        rng.start(11, list(zip(c["draws"], vals)))
        m0, m1, tol = run(a, b, c["tol"])
        out.append(len(pairing(a, b, m0, m1, tol)))
        tick()
    return tuple(out)


POOL = dense(0)


def large(k, h, w):
    """Sparse structures on a large image."""
    y, x = np.mgrid[:h, :w]
    return [lambda: (y * 31 + x * 17) % 41 == 0, lambda: (y % 16 == 7) | (x == w // 2), lambda: (x * 5 + y * 3) % 23 == 1, lambda: (y == 0) | (x == 0) | (y == h - 1) | (x == w - 1),
            lambda: (y > h - 8) & (x > w - 8), lambda: np.abs(y * (w - 1) - x * (h - 1)) * 2 <= max(h, w), lambda: (y // 3 + x // 3) % 9 == 0][k]()


def check_large(c):
    h, w = c["shape"]
    a, b = large(c["a"], h, w), large(c["b"], h, w)
    out = []
    for t in c["tols"]:
        for seed in c["seeds"]:
            rng.start(seed)
            m0, m1, tol = run(a.astype(c["dtype"]), b, t)
            out.append(len(pairing(a, b, m0, m1, tol)))
            tick()
    return tuple(out)


def build(tier):
    global rng
    rng = Rng()
    sc = []
    big = tier == "thorough"
    small = [s for s in shapes(5 if not big else 6, 6)]
    def tbl(shp, per):
        offs = [1 << (2 * h * w) for h, w in shp]
        def case(i):
            for (h, w), n in zip(shp, offs):
                if i < n:
                    return dict(shape=(h, w), a=i >> (h * w), b=i & ((1 << (h * w)) - 1), **per)
                i -= n
        return sum(offs), case
    n, case = tbl(small, {})
    sc.append(Scope("pairs_small_variants", n, case, lambda c: check_pair(c, True), note="all pairs of maps with <=%d pixels, 9 tolerances, 8 dtype/layout variants, 7 variants with set pixels other than 1, 4 outlier costs" % (5 if not big else 6)))
    n, case = tbl([(2, 3), (3, 2), (6, 1), (1, 6)] + ([(2, 4), (4, 2), (7, 1)] if big else []), {})
    sc.append(Scope("pairs_6px", n, case, check_pair, note="all pairs, 9 tolerances"))
    n, case = tbl([(3, 3)], dict(tols=[1.0, 2.3] if not big else TOLS))
    sc.append(Scope("pairs_3x3", n, case, check_pair, note="all 2^18 pairs of 3x3 maps"))
    # 3x4: diagonal exactly 5, so tolerances of exactly 1 and 2 pixels are representable
    few = [sum(1 << p for p in s) for k in range(3 if not big else 4) for s in itertools.combinations(range(12), k)]
    full = [4095 - v for v in few]
    sc.append(product_scope("pairs_3x4", [("shape", [(3, 4), (4, 3)]), ("a", few), ("b", few + full)], check_pair, note="sparse against sparse and nearly full maps"))
    # random draws
    cases = []
    for i in range(len(POOL)):
        for j in range(len(POOL)):
            if POOL[i].shape != POOL[j].shape:
                continue
            for tol in (1.0, 2.3, 50.0):
                rng.start(11)
                run(POOL[i], POOL[j], tol)
                n = rng.count()
                cases.append(dict(i=i, j=j, tol=tol, draws=(), values=[()], n=n))
    ext = (0.0, 0.5, 0.999999999)
    dev1 = []
    cap = 400 if not big else 4000
    for c in cases:
        step = max(1, c["n"] // (24 if not big else 200))
        for d in range(0, min(c["n"], cap * step), step):
            dev1.append(dict(i=c["i"], j=c["j"], tol=c["tol"], draws=(d,), values=[(v,) for v in ext]))
    sc.append(list_scope("rng_default", cases, check_rng, note="dense maps, default random stream"))
    sc.append(list_scope("rng_one_deviation", dev1, check_rng, note="one random draw of the matcher replaced by each extreme value"))
    dev2 = []
    for c in cases:
        if 0 < c["n"] and POOL[c["i"]].shape == (4, 4) and c["tol"] == 2.3:
            pos = list(range(0, c["n"], max(1, c["n"] // (7 if not big else 30))))
            dev2 += [dict(i=c["i"], j=c["j"], tol=c["tol"], draws=p, values=list(itertools.product((0.0, 0.999999999), repeat=2))) for p in itertools.combinations(pos, 2)]
    sc.append(list_scope("rng_two_deviations", dev2, check_rng, note="two random draws replaced"))
    sc.append(product_scope("large", [("shape", [(90, 120), (1, 700), (700, 1), (300, 5), (4, 301), (257, 66)] + ([(200, 290), (300, 260)] if big else [])), ("a", range(7)), ("b", range(7)), ("tols", [(1.0, 2.3, 6.0)] if not big else [(1.0, 1.5, 2.3, 4.5, 8.0)]), ("dtype", ["bool", "float32"]), ("seeds", [(3,)] if not big else [(3, 4, 5)])], check_large, note="large images: many pixels, positions beyond 16 bits", timeout=600))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of correspond_pixels on every pair of maps of the listed sizes; the matcher's erand48 is replaced at link time so that its draws are chosen by the explorer; the pairing is validated from its definition",
                    assumptions=["erand48 is the matcher's only source of randomness (counted at run time)"])
