"""P08: boundary bands from region and ignore masks."""
import functools, itertools, math
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from models import bits, variants, shapes


@functools.lru_cache(maxsize=None)
def pixdist(h, w):
    y, x = np.mgrid[:h, :w]
    y, x = y.ravel(), x.ravel()
    return np.sqrt((y[:, None] - y) ** 2 + (x[:, None] - x) ** 2)


def nearest(s):
    """Distance of every pixel to the nearest set pixel (infinite when there is none)."""
    h, w = s.shape
    i = np.flatnonzero(s)
    if not len(i):
        return np.full(s.shape, np.inf)
    if h * w > 1500:        # column distances, then the best row: exact integers
        big = 10 ** 9
        y, x = np.arange(h), np.arange(w)
        col = np.where(s[None], (y[:, None, None] - y[None, :, None]) ** 2, big).min(1)
        d2 = np.array([(col[:, None, :] + (x[:, None] - x[None, :])[None] ** 2)[k].min(1) for k in range(h)]) if h * w * w > 5e7 else (col[:, None, :] + (x[:, None] - x[None, :])[None] ** 2).min(2)
        return np.sqrt(d2)
    return pixdist(h, w)[:, i].min(1).reshape(h, w)


def band(mask, ign, radius, internal):
    inner = nearest(~(mask | ign))
    d = inner if internal else inner + nearest(mask)
    return (d > 0) & (d <= radius)


def one(mask, ign, radius, internal, cv2, dt=("uint8", "uint8"), mv=None, iv=None):
    from pyEdgeEval.utils import mask2bdry
    m = mask.astype(dt[0]) if mv is None else mv
    g = ign.astype(dt[1]) if iv is None else iv
    k1, k2 = m.copy(), g.copy()
    got = np.asarray(mask2bdry(mask=m, ignore_mask=g, radius=radius, internal_only=internal, use_cv2=cv2, quality=0))
    tick()
    want = band(mask, ign, radius, internal)
    expect(got.shape == mask.shape and np.isin(got, (0, 1)).all(), "boundary map is not a binary map of the image's size")
    expect(np.array_equal(got.astype(bool), want), lambda: "radius=%r internal_only=%s use_cv2=%s types=%s\nregion\n%s\nignored\n%s\nboundary\n%s\nexpected\n%s" % (radius, internal, cv2, dt, mask.astype(int), ign.astype(int), got.astype(int), want.astype(int)))
    expect(np.array_equal(m, k1) and np.array_equal(g, k2), "inputs were modified")
    return int(want.sum())


def check(c):
    h, w = c["shape"]
    m = bits(c["mask"], h, w)
    sig = 0
    for ic in c["ignores"]:
        g = bits(ic, h, w)
        for r in c["radii"]:
            for internal in (False, True):
                for cv2 in (True, False):
                    sig = sig * 31 + one(m, g, r, internal, cv2)
    return sig & 0xffffffff


def metric(s, quality):
    """Distance to the nearest set pixel under OpenCV's 3x3 or 5x5 mask (third-party metric; exact for quality 0)."""
    import cv2
    return cv2.distanceTransform((~s).astype(np.uint8), cv2.DIST_L2, quality)


def band_q(mask, ign, radius, internal, quality):
    inner = metric(~(mask | ign), quality)
    d = inner if internal else inner + metric(mask, quality)
    return (d > 0) & (d <= radius)


def check_quality(c):
    from pyEdgeEval.utils import mask2bdry
    h, w = c["shape"]
    m, g = bits(c["mask"], h, w), bits(c["ign"], h, w)
    if c.get("k"):
        m, g = (np.kron(a, np.ones((c["k"], c["k"]), bool)).astype(bool) for a in (m, g))
    s = 0
    for q in (0, 3, 5):
        for r in c["radii"]:
            for internal in (False, True):
                got = np.asarray(mask2bdry(mask=m.astype(np.uint8), ignore_mask=g.astype(np.uint8), radius=r, internal_only=internal, quality=q))
                want = band_q(m, g, r, internal, q)
                tick()
                expect(np.array_equal(got.astype(bool), want), lambda: "quality=%d radius=%r internal_only=%s\nregion\n%s\nignored\n%s\nboundary\n%s\nexpected\n%s" % (q, r, internal, m.astype(int), g.astype(int), got.astype(int), want.astype(int)))
                s = s * 31 + int(want.sum())
    return s & 0xffffffff


def check_types(c):
    h, w = c["shape"]
    m, g = bits(c["mask"], h, w), bits(c["ign"], h, w)
    s = 0
    for cv2 in (True, False):
        for dt in (("bool", "uint8"), ("uint8", "bool"), ("float32", "uint8"), ("int64", "int64")):
            s += one(m, g, 2, False, cv2, dt)
            s += one(m, g, 1, True, cv2, dt)
        for (k, v), (k2, u) in zip(variants(m.astype(np.uint8), ("F", "strided", "flipped", "transposed")), variants(g.astype(np.uint8), ("strided", "F", "transposed", "flipped"))):
            s += one(m, g, 2, False, cv2, (k, k2), v, u)
    return s


def check_big(c):
    H, W = c["shape"]
    k = c["k"]
    m = np.zeros((H, W), bool)
    p = np.kron(bits(c["pat"], 3, 3), np.ones((k, k), bool)).astype(bool)
    oy, ox = c["off"]
    m[oy:oy + p.shape[0], ox:ox + p.shape[1]] = p[:H - oy, :W - ox]
    g = np.zeros((H, W), bool)
    if c["ign"] == 1:
        g[:, W // 2:W // 2 + 3] = True
    elif c["ign"] == 2:
        g[:2] = g[-2:] = True; g[:, :2] = g[:, -2:] = True
    elif c["ign"] == 3:
        g = ~m & (np.add.outer(np.arange(H), np.arange(W)) % 5 < 2)
    elif c["ign"] == 4:
        g = ~m
    s = 0
    for r in c["radii"]:
        for internal in (False, True):
            for cv2 in (True, False):
                s = s * 31 + one(m, g, r, internal, cv2)
    return s & 0xffffffff


def check_large(c):
    H, W = c["shape"]
    y, x = np.mgrid[:H, :W]
    m = [lambda: (y // 12 + x // 25) % 2 == 0, lambda: (y - H / 2) ** 2 + (x - W / 2) ** 2 < (min(H, W) * 0.45) ** 2 + 4, lambda: x >= W // 3, lambda: (y * 5 + x * 3) % 37 < 2, lambda: (x == W - 1) & (y == H - 1), lambda: (x > 254) & (x < 258) | (y > 254) & (y < 258)][c["k"]]()
    g = [lambda: x < 0, lambda: (y < 5) | (x < 5) | (y >= H - 5) | (x >= W - 5), lambda: (x // 40) % 3 == 1, lambda: ~m & ((y + x) % 7 < 3)][c["ign"]]()
    return tuple(one(m, g & True, r, internal, cv2) for r in c["radii"] for internal in (False, True) for cv2 in (True, False))


def build(tier):
    big = tier == "thorough"
    sc = []
    R = (1, 2, 3) if not big else (1, 1.5, 2, 2.5, 3, 5)
    sc.append(product_scope("all_3x3", [("shape", [(3, 3)]), ("mask", range(512)), ("ignores", [list(range(i, 512, 4)) for i in range(4)]), ("radii", [R])], check, states=128,
                            note="every region and every ignore mask on 3x3; both computations, both modes"))
    for h, w in [(1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (1, 7), (7, 1)] + ([(2, 4), (4, 2), (1, 9)] if big else []):
        n = 1 << (h * w)
        sc.append(product_scope("all_%dx%d" % (h, w), [("shape", [(h, w)]), ("mask", range(n)), ("ignores", [list(range(n))]), ("radii", [(1, 1.5, 2, 3, 10)])], check, states=n, note="every region and ignore mask"))
    ig = [0, 0b1111, 0b0001000100010001, 0b0000011001100000, 0xffff, 0b1010010110100101]
    sc.append(product_scope("regions_4x4", [("shape", [(4, 4)]), ("mask", range(0, 65536, 1 if big else 3)), ("ignores", [ig if big else ig[:4]]), ("radii", [(1, 2, 3) if big else (2,)])], check, states=4, note="4x4 regions (every, or every third code) with fixed ignore masks"))
    sc.append(product_scope("types_2x3", [("shape", [(2, 3), (3, 2)]), ("mask", range(64)), ("ign", range(0, 64, 3))], check_types, note="dtypes and memory layouts"))
    sc.append(product_scope("approximate", [("shape", [(2, 3), (3, 2)]), ("mask", range(64)), ("ign", range(0, 64, 1 if big else 5)), ("k", [1, 3]), ("radii", [(1, 1.38, 2, 3, 4.2)])], check_quality, note="OpenCV's approximate distances (quality 3 and 5): the same band under that metric; enlarged 3 times too"))
    sc.append(product_scope("enlarged", [("shape", [(14, 17), (17, 13)]), ("pat", range(0, 512, 1 if big else 4)), ("k", [3, 5]), ("off", [(0, 0), (2, 1)]), ("ign", [0, 1, 2, 3, 4]), ("radii", [(1, 2, 3, 5, 7.3)])], check_big, note="larger regions and distances"))
    sc.append(product_scope("large", [("shape", [(40, 300), (300, 30), (1, 600), (600, 1), (70, 90)] + ([(180, 260)] if big else [])), ("k", range(6)), ("ign", range(4)), ("radii", [(1, 2, 4, 9, 16, 20.5, 33, 300)])], check_large, note="large images, radii up to 300", timeout=600))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of mask2bdry (exact OpenCV distance and SciPy) on every case, compared with brute-force nearest-pixel distances",
                    assumptions=["for the approximate OpenCV distances (quality 3 or 5) the metric itself is OpenCV's"])
