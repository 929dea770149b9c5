"""P07: non-maximum suppression agrees with its definition at every pixel."""
import itertools, math
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from models import bits, variants

EPS = 1e-6


def model(E, O, r, s, m, tie=EPS):
    """E, O: (N,h,w). -> (kept, undecided) boolean arrays and the border ramp (h,w)."""
    n, h, w = E.shape
    m = float(np.float32(m))
    Y, X = np.mgrid[:h, :w].astype(float)
    definite = np.zeros(E.shape, bool)
    unsure = np.zeros(E.shape, bool)
    k = np.arange(n)[:, None, None]
    c, sn = np.cos(O), np.sin(O)
    em = E * m
    for d in range(-r, r + 1):
        if d == 0:
            continue
        dec = []
        near = np.zeros(E.shape, bool)
        for slack in (1.001, 1.0):
            xs, ys = X + d * c, Y + d * sn
            exact = (O == 0) & (xs == np.floor(xs)) & (xs >= 0) & (xs <= w - 1.001) & (ys <= h - 1.001)
            xs = np.where(xs < 0, 0.0, np.minimum(xs, max(w - slack, 0)))
            ys = np.where(ys < 0, 0.0, np.minimum(ys, max(h - slack, 0)))
            x0 = np.minimum(np.floor(xs).astype(int), max(w - 2, 0)); y0 = np.minimum(np.floor(ys).astype(int), max(h - 2, 0))
            x1 = np.minimum(x0 + 1, w - 1); y1 = np.minimum(y0 + 1, h - 1)
            fx, fy = xs - x0, ys - y0
            e0 = (E[k, y0, x0] * (1 - fx) * (1 - fy) + E[k, y0, x1] * fx * (1 - fy) + E[k, y1, x0] * (1 - fx) * fy + E[k, y1, x1] * fx * fy)
            dec.append(e0 > em)
            near |= ~exact & (np.abs(e0 - em) <= tie * (np.abs(em) + np.abs(e0)))
        amb = near | (dec[0] != dec[1])
        definite |= dec[0] & ~amb
        unsure |= amb
    zero = E == 0
    kept = ~definite & ~unsure & ~zero
    unsure &= ~definite & ~zero
    s = min(s, w // 2, h // 2)
    ramp = np.ones((h, w))
    for i in range(s):
        ramp[:, i] *= i / s; ramp[:, w - 1 - i] *= i / s
        ramp[i, :] *= i / s; ramp[h - 1 - i, :] *= i / s
    return kept, unsure, ramp


def judge(E, out, kept, unsure, ramp, what, rtol=1e-12):
    want = E * ramp
    tol = rtol * (np.abs(want) + 1e-30)
    full = np.abs(out - want) <= tol
    none = out == 0
    bad = np.where(unsure, ~(full | none), np.where(kept, ~full, ~none))
    if bad.any():
        y, x = np.argwhere(bad)[0]
        expect(False, "pixel (%d,%d) is %r, expected %s; %s\nstrengths\n%s\nresult\n%s" % (y, x, out[y, x], "0 or %r" % want[y, x] if unsure[y, x] else repr(want[y, x] if kept[y, x] else 0.0), what(), E, out))


def levels(lo, hi, h, w, lev):
    n = len(lev)
    v = np.arange(lo, hi, dtype=np.int64)
    d = (v[:, None] // (n ** np.arange(h * w, dtype=np.int64))) % n
    return np.asarray(lev)[d].reshape(-1, h, w)


def ori_map(kind, h, w):
    y, x = np.mgrid[:h, :w]
    tab = np.array([0.0, math.pi / 4, math.pi / 2, 3 * math.pi / 4, 1.0, 2.2, 3.1])
    if isinstance(kind, float):
        return np.full((h, w), kind)
    return tab[(x * 3 + y * 5 + kind) % len(tab)]


def check_nms(c):
    from pyEdgeEval._lib import nms
    h, w = c["shape"]
    E = levels(c["first"], min(c["first"] + c["count"], len(c["lev"]) ** (h * w)), h, w, c["lev"])
    O = ori_map(c["ori"], h, w)
    sig = 0
    for r, s, m in c["par"]:
        kept, unsure, ramp = model(E, np.broadcast_to(O, E.shape), r, s, m)
        for i in range(len(E)):
            e, o = E[i].copy(), O.copy()
            out = np.asarray(nms(e, o, r=r, s=s, m=m))
            tick()
            expect(out.shape == e.shape, "another shape")
            expect(np.array_equal(e, E[i]) and np.array_equal(o, O), "inputs were modified")
            judge(E[i], out, kept[i], unsure[i], ramp, lambda: "r=%d s=%d m=%r orientation\n%s" % (r, s, m, O))
        sig = sig * 31 + int(kept.sum()) * 7 + int(unsure.sum())
    return sig & 0xffffffff


def check_nms_big(c):
    """Larger maps, radii and borders."""
    from pyEdgeEval._lib import nms
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    E = [np.round(((x * 7 + y * 11 + (x * y) % 13) % 29) / 29.0, 3), ((x // 3 + y // 4) % 3) / 2.0, np.where((x + 2 * y) % 9 == 0, 1.0, 0.01 * ((x + y) % 5)), np.where(y % 7 == 3, 3.5, 0.0)][c["k"]]
    O = ori_map(c["ori"], h, w)
    out = []
    for r, s, m in c["par"]:
        kept, unsure, ramp = model(E[None], O[None], r, s, m)
        e, o = E.copy(), O.copy()
        got = np.asarray(nms(e, o, r=r, s=s, m=m))
        tick()
        expect(got.shape == e.shape and np.array_equal(e, E) and np.array_equal(o, O), "another shape, or the inputs were modified")
        judge(E, got, kept[0], unsure[0], ramp, lambda: "r=%d s=%d m=%r case %s" % (r, s, m, c))
        out.append(int(kept.sum()))
    return tuple(out)


def check_layout(c):
    from pyEdgeEval._lib import nms
    h, w = 4, 5
    e = np.round(np.abs(np.sin(np.arange(20) * 1.7 + c["k"])), 1).reshape(h, w)
    o = ori_map(c["k"], h, w)
    ref = np.asarray(nms(e, o, r=2, s=1, m=1.01))
    for k, v in variants(e, ("F", "strided", "flipped", "transposed")):
        for k2, u in variants(o, ("F", "strided", "flipped")):
            keep = v.copy(), u.copy()
            expect(np.array_equal(nms(v, u, r=2, s=1, m=1.01), ref), "result depends on memory layout (%s, %s)" % (k, k2))
            expect(np.array_equal(v, keep[0]) and np.array_equal(u, keep[1]), "inputs were modified")
            tick()
    b = (e > .5)
    for k, v in variants(b, ("uint8", "int64", "float32")):
        expect(np.array_equal(nms(v, o, r=2, s=1, m=1.01), nms(b.astype(float), o, r=2, s=1, m=1.01)), "result depends on dtype %s" % k)
        tick()
    return float(ref.sum())


# ---- the complete preprocessing
def tri(img, r):
    """Separable triangle filter of radius r, image mirrored at its borders (float64)."""
    k = np.array([1, 2, 1]) / 4.0 if r == 1 else np.concatenate([np.arange(1, r + 2), np.arange(r, 0, -1)]) / (r + 1.0) ** 2
    def mirror(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    for ax in (0, 1):
        n = img.shape[ax]
        out = np.zeros_like(img)
        for j, c in zip(range(-r, r + 1), k):
            idx = [mirror(i + j, n) for i in range(n)]
            out += c * np.take(img, idx, axis=ax)
        img = out
    return img


def grad(a, ax):
    a = np.moveaxis(a, ax, 0)
    g = np.empty_like(a)
    g[0] = a[1] - a[0]; g[-1] = a[-1] - a[-2]
    g[1:-1] = (a[2:] - a[:-2]) / 2
    return np.moveaxis(g, 0, ax)


def pipeline(img):
    E = tri(img, 1)
    S = tri(E, 4)
    ox, oy = grad(S, 1), grad(S, 0)
    oxx = grad(ox, 1); oxy = grad(oy, 1); oyy = grad(oy, 0)
    return E, oxx, oxy, oyy


def check_fast(c):
    from pyEdgeEval.preprocess import fast_nms
    img = make_image(c)
    kw = dict(c["kw"])
    half = kw.get("half_prec", False) or c["dtype"] == "float32"
    keep = img.copy()
    f = img / 255.0 if img.dtype == np.uint8 else img.astype(np.float64)
    out = np.asarray(fast_nms(img, **kw))
    tick()
    expect(np.array_equal(img, keep), "fast_nms modified its input")
    E, oxx, oxy, oyy = pipeline(f)
    noise = (3e-7 if half else 1e-13) * max(np.abs(E).max(), 1e-30)
    flat = np.abs(oxx) < 50 * noise
    oxx = np.where(np.abs(oxx) == 0, 1e-5, oxx)
    # where the orientation is decided by rounding noise, either outcome is right
    with np.errstate(all="ignore"):
        ori = np.mod(np.arctan(oyy * np.sign(-oxy) / oxx), np.pi)
        err = noise * (1 + np.abs(oyy / oxx)) / np.abs(oxx) / (1 + (oyy / oxx) ** 2)
    loose = flat | (np.abs(oxy) < 50 * noise) | (err > 1e-3) | ~np.isfinite(ori) | (np.abs(ori - np.pi) < 1e-2 * half + 1e-6) | (np.abs(ori) < 1e-2 * half + 1e-6)
    oriA, oriB = ori, ori + np.minimum(err * 4, 1)
    par = kw.get("r", 1), kw.get("s", 5), kw.get("m", 1.01)
    tie = 1e-4 if half else 1e-6
    ka, ua, ramp = model(E[None], ori[None], *par, tie=tie)
    kb, ub, _ = model(E[None], (ori + err * 4)[None], *par, tie=tie)
    kc, uc, _ = model(E[None], (ori - err * 4)[None], *par, tie=tie)
    tiny = np.abs(E) < 20 * noise
    unsure = ua[0] | ub[0] | uc[0] | loose | (ka[0] != kb[0]) | (ka[0] != kc[0]) | tiny
    if kw.get("return_as_uint8"):
        expect(out.dtype == np.uint8, "8-bit output requested, got %s" % out.dtype)
        plain = fast_nms(img, **{k: v for k, v in kw.items() if k != "return_as_uint8"})
        expect(np.array_equal(out, np.round(np.clip(plain, 0, 1) * 255).astype(np.uint8)), "8-bit output is not the rounded suppressed map")
        want = E * ramp * 255
        o = out.astype(float)
        full, none = np.abs(o - want) <= 0.51, o == 0
        bad = np.where(unsure, ~(full | none), np.where(ka[0], ~full, ~none))
        expect(not bad.any(), lambda: "8-bit result differs from the definition\n%s\n%s" % (out, want))
    else:
        # zero strengths may come out as rounding noise
        o = np.where(tiny & (np.abs(out) < 50 * noise), 0, out)
        e = np.where(tiny, 0, E)
        judge(e, o, ka[0] & ~unsure, unsure & ~tiny, ramp, lambda: "parameters %s" % kw, rtol=1e-4 if half else 1e-9)
    return int((~unsure & ka[0]).sum()), int((~unsure & ~ka[0] & (E > 0)).sum())


def check_const(c):
    """Images constant along one axis: the orientation is exactly 0 (the normal points along x)."""
    from pyEdgeEval.preprocess import fast_nms
    prof = np.array([(c["code"] >> i) & 1 for i in range(c["n"])]) * (0.3 + 0.1 * (np.arange(c["n"]) % 5))
    img = np.tile(prof, (c["m"], 1)) if c["axis"] else np.tile(prof[:, None], (1, c["m"]))
    kw = dict(c["kw"])
    with np.errstate(all="ignore"):
        out = np.asarray(fast_nms(img, **kw))
    tick()
    E = tri(img, 1)
    kept, unsure, ramp = model(E[None], np.zeros((1,) + E.shape), kw.get("r", 1), kw.get("s", 5), kw.get("m", 1.01))
    near = np.abs(E) < 1e-12
    judge(E, np.where(E == 0, 0, out), kept[0] & ~near, unsure[0] | near, ramp, lambda: "parameters %s" % kw, rtol=1e-9)
    return int(kept.sum())


def make_image(c):
    h, w = c["shape"]
    img = np.zeros((h, w))
    y, x = np.mgrid[:h, :w]
    p = np.kron(bits(c["pat"], 3, 3), np.ones((c["k"], c["k"])))[:h, :w]
    img[:p.shape[0], :p.shape[1]] = p
    img = img * (0.35 + 0.6 * ((x * 7 + y * 11 + 3) % 29) / 29.0)
    if c["bg"]:
        img = img + 0.05 * ((x * 5 + y * 3) % 17) / 17.0
    img = np.clip(img, 0, 1) * c.get("amp", 1.0)
    if c["dtype"] == "uint8":
        return np.round(img * 255).astype(np.uint8)
    return img.astype(c["dtype"])


def build(tier):
    big = tier == "thorough"
    sc = []
    P = [(1, 0, 1.0), (1, 5, 1.01), (2, 1, 1.0), (3, 2, 1.5)]
    def space(name, h, w, lev, oris, par, B=243, note=""):
        n = len(lev) ** (h * w)
        nb = -(-n // B)
        sc.append(Scope(name, nb * len(oris), lambda i: dict(shape=(h, w), lev=lev, first=(i % nb) * B, count=B, ori=oris[i // nb], par=par), check_nms, note=note, states=min(B, n) * len(par)))
    O1 = [0.0, math.pi / 4, math.pi / 2, 0, 1]
    O2 = O1 + [3 * math.pi / 4, 1.0, 2.5, 2, 3, 4, 5, 6]
    space("nms_3x3", 3, 3, [0.0, 0.5, 1.0], O2 if big else O1, P, note="every 3-level 3x3 strength map, several orientation maps, 4 parameter sets")
    for h, w in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (5, 1), (2, 3), (3, 2)]:
        space("nms_%dx%d" % (h, w), h, w, [0.0, 0.25, 0.5, 1.0] if h * w < 6 else [0.0, 0.5, 1.0], O2, P, note="including images one pixel wide or high")
    for lev in ([0.0, 1e-9, 2e-9], [0.0, 2.0 ** -30, 1.0], [0.0, 1000.0, 1e6], [0.0, 1e-120, 3e-120]):
        space("nms_2x3_levels_%g_%g" % tuple(lev[1:]), 2, 3, lev, O1, P, note="very weak and very strong strengths")
    space("nms_4x4_binary", 4, 4, [0.0, 1.0], (O2 if big else [0.0, 0, 1]), [(1, 1, 1.0), (2, 5, 1.01)], note="every binary 4x4 map")
    space("nms_3x5_binary", 3, 5, [0.25, 1.0], (O2 if big else [math.pi / 2, 2]), [(1, 1, 1.0), (2, 5, 1.01)], note="every two-level 3x5 map")
    PB = [(1, 5, 1.01), (4, 0, 1.0), (7, 12, 1.1), (12, 33, 1.0), (2, 200, 1.5)]
    sc.append(product_scope("nms_large", [("shape", [(40, 70), (70, 40), (5, 300), (300, 4), (1, 260), (260, 1)] + ([(256, 300)] if big else [])), ("k", range(4)), ("ori", O2), ("par", [PB])], check_nms_big, note="larger maps, radii up to 12, borders up to wider than the map"))
    sc.append(list_scope("nms_layouts", [dict(k=k) for k in range(7)], check_layout, note="dtype and memory layout"))
    KW = [{}, dict(s=0), dict(r=2, s=3, m=1.0), dict(r=3, s=20, m=1.2), dict(half_prec=True), dict(return_as_uint8=True), dict(r=2, s=0, m=1.05, half_prec=True, return_as_uint8=True)]
    sc.append(product_scope("fast_nms", [("shape", [(12, 13), (9, 16)]), ("pat", range(1, 512, 1 if big else 3)), ("k", [2, 3]), ("bg", [0, 1]), ("dtype", ["float64", "uint8", "float32"]), ("kw", KW)], check_fast,
                            note="every (third) 3x3 stroke pattern, enlarged; dtypes; 7 parameter sets"))
    sc.append(product_scope("fast_nms_small", [("shape", [(2, 2), (2, 3), (3, 2), (2, 6), (6, 2), (3, 3), (4, 3), (5, 5), (3, 20)]), ("pat", range(0, 512, 5)), ("k", [1, 2]), ("bg", [0, 1]), ("dtype", ["float64", "uint8"]), ("kw", KW[:4])], check_fast, note="images smaller than the filters"))
    FK = [k for k in KW if not k.get("return_as_uint8")]
    sc.append(product_scope("fast_nms_scaled", [("shape", [(12, 13), (9, 16)]), ("pat", range(1, 512, 5 if big else 23)), ("k", [2, 3]), ("bg", [0, 1]), ("amp", [1e-7, 2.0 ** -20, 40.0, 1e4]), ("dtype", ["float64", "float32"]), ("kw", FK)], check_fast, note="very weak and very strong strength maps"))
    sc.append(product_scope("fast_nms_large", [("shape", [(31, 44), (44, 31)]), ("pat", range(1, 512, 17)), ("k", [7, 10]), ("bg", [0, 1]), ("dtype", ["float64", "uint8"]), ("kw", KW)], check_fast, note="larger images"))
    sc.append(product_scope("fast_nms_straight", [("n", [10]), ("m", [4, 9]), ("axis", [0, 1]), ("code", range(1024)), ("kw", [{}, dict(r=2, s=0, m=1.05)])], check_const, note="images constant along rows or columns: every binary profile"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of nms and fast_nms on every case; compared pixel by pixel with the definition (independent interpolation, triangle filter and derivatives); where a comparison is decided by rounding noise both outcomes are accepted, exact ties along rows are decided strictly",
                    assumptions=["pixels whose orientation or comparison is within rounding noise are only required to be either suppressed or kept unchanged"])
