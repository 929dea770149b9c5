"""P02: maximum-cardinality, minimum-distance matching whenever the match graph is complete."""
import itertools, math
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, Rng
from models import bits, shapes
from p01 import pairing
from scipy.optimize import linear_sum_assignment

rng = None
BIG = 10 ** 6


def cost_matrix(pa, pb, tol):
    d2 = ((pa[:, None, :] - pb[None, :, :]) ** 2).sum(-1)
    ok = d2 <= tol * tol
    return np.rint(np.sqrt(d2) * 100).astype(np.int64), ok


def optimum(c, ok):
    """(number of pairs, total cost) of the best pairing; exact."""
    if not ok.any():
        return 0, 0
    m = np.where(ok, c - BIG, 0)
    r, k = linear_sum_assignment(m)
    sel = ok[r, k]
    return int(sel.sum()), int(c[r, k][sel].sum())


def brute(c, ok):
    best = (0, 0)
    n, m = c.shape
    def go(i, used, k, cost):
        nonlocal best
        if i == n:
            if k > best[0] or (k == best[0] and cost < best[1]):
                best = (k, cost)
            return
        go(i + 1, used, k, cost)
        for j in range(m):
            if ok[i, j] and j not in used:
                go(i + 1, used | {j}, k + 1, cost + c[i, j])
    go(0, frozenset(), 0, 0)
    return int(best[0]), int(best[1])


def one(a, b, tol, oracle=optimum):
    from pyEdgeEval._lib import correspond_pixels
    md = tol / math.sqrt(a.shape[0] ** 2 + a.shape[1] ** 2)
    tol = md * math.sqrt(a.shape[0] ** 2 + a.shape[1] ** 2)
    pa, pb = np.argwhere(a), np.argwhere(b)
    c, ok = cost_matrix(pa, pb, tol)
    n1, n2 = int(ok.any(1).sum()), int(ok.any(0).sum())
    if min(n1, n2) > 6 or max(n1, n2) > 7:
        return None         # outside the regime of the property
    k, cost = oracle(c, ok)
    where = lambda: "\nmap1\n%s\nmap2\n%s\ntolerance %r px; best: %d pairs, cost %d" % (a.astype(int), b.astype(int), tol, k, cost)
    rng.start(5)
    m0, m1 = correspond_pixels(a, b, max_dist=md)[:2]
    pr = pairing(a, b, m0, m1, tol)
    expect(len(pr) == k, lambda: "%d pairs matched" % len(pr) + where())
    got = sum(int(np.rint(100 * math.hypot(y - v, x - u))) for (y, x), (v, u) in pr)
    expect(got == cost, lambda: "total distance %d" % got + where())
    rng.start(6)
    s0, s1 = correspond_pixels(b, a, max_dist=md)[:2]
    expect(int((s0 > 0).sum()) == k and int((s1 > 0).sum()) == k, lambda: "swapping the maps changes the number of matches to %d" % int((s0 > 0).sum()) + where())
    tick(2)
    return k, cost


def check(c, oracle=optimum):
    h, w = c["shape"]
    a = bits(c["a"], h, w) if isinstance(c["a"], int) else from_pts(c["a"], h, w)
    b = bits(c["b"], h, w) if isinstance(c["b"], int) else from_pts(c["b"], h, w)
    return tuple(one(a, b, t, oracle) for t in c["tols"])


def from_pts(pts, h, w):
    m = np.zeros((h, w), bool)
    for y, x in pts:
        m[y, x] = True
    return m


def subsets(pts, kmax):
    return [s for k in range(kmax + 1) for s in itertools.combinations(pts, k)]


def build(tier):
    global rng
    rng = Rng()
    big = tier == "thorough"
    T = (0.7, 1.0, 1.2, 1.5, 2.0, 2.1, 2.5, 9.0)
    sc = []
    small = shapes(6 if big else 5, 6)
    offs = [1 << (2 * h * w) for h, w in small]
    def case(i):
        for (h, w), n in zip(small, offs):
            if i < n:
                return dict(shape=(h, w), a=i >> (h * w), b=i & ((1 << (h * w)) - 1), tols=T)
            i -= n
    sc.append(Scope("pairs_small", sum(offs), case, lambda c: check(c, brute), note="all pairs, enumerated optimum (all partial matchings)"))
    for h, w in [(2, 3), (3, 2)]:
        n = h * w
        sc.append(Scope("pairs_%dx%d" % (h, w), 1 << (2 * n), lambda i, h=h, w=w, n=n: dict(shape=(h, w), a=i >> n, b=i & ((1 << n) - 1), tols=T), check, note="all pairs, 8 tolerances"))
    t33 = T if big else (1.0, 1.5, 2.1, 9.0)
    sc.append(Scope("pairs_3x3", 1 << 18, lambda i: dict(shape=(3, 3), a=i >> 9, b=i & 511, tols=t33), check, note="all pairs of 3x3 maps"))
    g = [(y, x) for y in range(3) for x in range(4)]
    s3 = subsets(g, 3)
    sc.append(product_scope("pairs_3x4", [("shape", [(3, 4)]), ("tols", [(1.0, 2.0, 3.0)] if not big else [(1.0, 1.5, 2.0, 2.3, 3.0, 4.0)]), ("a", s3), ("b", s3)], check,
                            note="all pairs with <=3 set pixels each; diagonal 5, so integer tolerances are hit exactly"))
    line = [(0, x) for x in range(0, 12)]
    sl = subsets(line, 3 if not big else 4)
    sc.append(product_scope("pairs_1x12", [("shape", [(1, 12)]), ("tols", [(2.1, 5.0)]), ("a", sl), ("b", sl)], check, note="chains: greedy matching fails here"))
    # chains of up to 6 x 7 pixels where shifting everything by one is needed
    chain = []
    for h, w in ((1, 14), (14, 1), (2, 9), (9, 2)):
        pts = [(y, x) for x in range(w) for y in range(h)]
        for na in range(3, 8):
            for nb in range(3, 8):
                if min(na, nb) > 6:
                    continue
                for off in range(0, 5):
                    for step in (1, 2):
                        a = pts[0:na * step:step][:na]
                        b = pts[off:off + nb * step:step][:nb]
                        if len(a) == na and len(b) == nb:
                            chain.append(dict(shape=(h, w), a=tuple(a), b=tuple(b), tols=(1.0, 1.5, 2.0, 3.0, 4.1)))
    sc.append(list_scope("chains", chain, check, note="runs of 3..7 pixels, shifted"))
    far = [(0, 0), (0, 40), (0, 36), (22, 0), (22, 40), (22, 38), (11, 20), (11, 23), (14, 20), (14, 24)]
    sf = subsets(far, 3 if not big else 4)
    sc.append(product_scope("pairs_23x41", [("shape", [(23, 41)]), ("tols", [(3.0, 5.0, 30.0)]), ("a", sf), ("b", sf if big else sf[::2])], check, note="larger image, subsets of ten positions"))
    corner = [(0, 0), (0, 299), (299, 299), (299, 296), (295, 299), (150, 1), (255, 256), (256, 255), (257, 257), (218, 138)]
    sl = subsets(corner, 3)
    sc.append(product_scope("pairs_300x300", [("shape", [(300, 300)]), ("tols", [(3.0, 5.0, 180.0)]), ("a", sl if big else sl[::3]), ("b", sl if big else sl[::4])], check, note="positions beyond 8 and 16 bits, tolerance up to 180 pixels"))
    strip = [(0, 0), (0, 255), (0, 256), (0, 1999), (0, 1997), (0, 1000), (0, 1004)]
    ss = subsets(strip, 3 if not big else 4)
    sc.append(product_scope("pairs_1x2000", [("shape", [(1, 2000)]), ("tols", [(1.0, 4.0, 300.0)]), ("a", ss), ("b", ss)], check, note="a long row"))
    sc.append(product_scope("pairs_2000x1", [("shape", [(2000, 1)]), ("tols", [(1.0, 4.0, 300.0)]), ("a", [tuple((x, y) for y, x in s) for s in ss]), ("b", [tuple((x, y) for y, x in s) for s in ss[::3]])], check, note="a long column"))
    return sc, dict(budget=700 if tier == "quick" else 3200,
                    how="direct execution of correspond_pixels (both argument orders) on every pair of the listed spaces; compared with the exact optimum (Hungarian algorithm; enumeration of all partial matchings on the smallest spaces)",
                    assumptions=["scipy.optimize.linear_sum_assignment is exact on these integers (cross-checked by enumeration on the smallest spaces)"])
