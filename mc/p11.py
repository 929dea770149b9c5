"""P11: encoding and decoding of multi-label edge maps."""
import itertools, os
import numpy as np
from PIL import Image
from core import Scope, product_scope, list_scope, expect, tick, scratch
from models import variants


def codes(K, tier_big):
    """Bit patterns explored for K classes: all of them when few, else all with <=3 or >=K-2 classes and byte patterns."""
    if K <= 10:
        return list(range(1 << K))
    s = {0, (1 << K) - 1}
    for n in (1, 2, 3):
        for c in itertools.combinations(range(K), n):
            v = sum(1 << k for k in c)
            s.add(v)
            if n < 3:
                s.add(((1 << K) - 1) ^ v)
    for b in range(256):
        for sh in range(0, K, 8):
            s.add((b << sh) & ((1 << K) - 1))
    return sorted(s)


def stack(vals, K, h, w):
    v = np.zeros(h * w, dtype=np.int64)
    v[:len(vals)] = vals
    v = v.reshape(h, w)
    return ((v[None] >> np.arange(K)[:, None, None]) & 1).astype(np.uint8), v


def layout(K, shape, big):
    cs = codes(K, big)
    n = len(cs)
    if shape == "row":
        return cs, 1, n
    if shape == "col":
        return cs, n, 1
    w = max(1, int(n ** 0.5) + 3)
    return cs, -(-n // w), w


def code24(rgb):
    a = rgb.astype(np.int64)
    return (a[:, :, 0] << 16) | (a[:, :, 1] << 8) | a[:, :, 2]


def tmp(name):
    d = os.path.join(scratch(), "enc-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)


def same(dec, edges, n, what):
    dec = np.asarray(dec)
    expect(dec.shape == (n,) + edges.shape[1:], lambda: "%s: decoded shape %s" % (what, dec.shape))
    bad = dec != edges[:n]
    expect(not bad.any(), lambda: "%s: class %d differs at pixel %s (classes there: %s)" % (what, np.argwhere(bad)[0][0], tuple(np.argwhere(bad)[0][1:]), np.flatnonzero(edges[:, np.argwhere(bad)[0][1], np.argwhere(bad)[0][2]]).tolist()))


def check(c):
    from pyEdgeEval.common.multi_label import (rgb_multilabel_encoding, default_multilabel_encoding, decode_png, decode_tif, binary_multilabel_decoding, load_scaled_edge)
    from pyEdgeEval.utils import edge_onehot2multilabel, edge_multilabel2binary
    K = c["K"]
    cs, h, w = layout(K, c["shape"], False)
    edges, v = stack(cs, K, h, w)
    kinds = c["kinds"]
    for kind, e in [("uint8", edges)] + list(variants(edges[0] * 0, ())) + [(k, x) for k in kinds for x in [typed(edges, k)]]:
        keep = e.copy()
        what = "%d classes, %dx%d, %s" % (K, h, w, kind)
        if K <= 24:
            rgb = np.asarray(rgb_multilabel_encoding(e))
            expect(rgb.dtype == np.uint8 and rgb.shape == (h, w, 3), lambda: "%s: RGB code is %s %s" % (what, rgb.dtype, rgb.shape))
            expect(np.array_equal(code24(rgb), v), lambda: "%s: RGB code of classes %s is wrong" % (what, bin(v[code24(rgb) != v][0])))
            same(decode_png(Image.fromarray(rgb), K), edges, K, what + " RGB")
            tick(2)
        enc = np.asarray(default_multilabel_encoding(e))
        expect(enc.shape == (h, w) and np.array_equal(enc.astype(np.int64) & 0xffffffff, v), lambda: "%s: 32-bit code is wrong" % what)
        alt = np.asarray(edge_onehot2multilabel(e))
        expect(np.array_equal(alt.astype(np.int64) & 0xffffffff, v), lambda: "%s: edge_onehot2multilabel code is wrong" % what)
        same(decode_tif(Image.fromarray(enc.astype(np.int32)), K), edges, K, what + " 32-bit")
        expect(np.array_equal(np.asarray(edge_multilabel2binary(e)).astype(bool), v > 0), lambda: "%s: collapsed edges differ" % what)
        expect(np.array_equal(e, keep), "inputs were modified")
        for f, code in (("default_multilabel_encoding", enc), ("edge_onehot2multilabel", alt)):
            p = tmp("raw.bin")
            code.tofile(p)
            same(binary_multilabel_decoding(p, h, w, K), edges, K, "%s: 32-bit map of %s as raw file" % (what, f))
        tick(6)
    # files
    enc = np.asarray(default_multilabel_encoding(edges))
    p = tmp("x.tif")
    Image.fromarray(enc.astype(np.int32)).save(p)
    same(decode_tif(Image.open(p), K), edges, K, "TIFF file")
    img, hw = load_scaled_edge(p, 1.0)
    expect(tuple(hw) == (h, w), "size at scale 1 is %s" % (hw,))
    same(decode_tif(img, K), edges, K, "TIFF file at scale 1")
    p = tmp("x.bin")
    enc.astype(np.uint32).tofile(p)
    for n in sorted({1, max(1, K - 1), K}):
        same(binary_multilabel_decoding(p, h, w, n), edges, n, "binary file, %d of %d classes" % (n, K))
        same(decode_tif(Image.fromarray(enc.astype(np.int32)), n), edges, n, "32-bit, %d of %d classes" % (n, K))
    if K <= 24:
        rgb = np.asarray(rgb_multilabel_encoding(edges))
        p = tmp("x.png")
        Image.fromarray(rgb).save(p)
        for n in range(1, K + 1):
            same(decode_png(Image.open(p), n), edges, n, "PNG file, %d of %d classes" % (n, K))
        img, hw = load_scaled_edge(p, 1.0)
        same(decode_png(img, K), edges, K, "PNG file at scale 1")
        tick(K)
    tick(5)
    return len(cs)


def typed(e, k):
    if k == "F":
        return np.asfortranarray(e)
    if k == "chlast":
        return np.ascontiguousarray(e.transpose(1, 2, 0)).transpose(2, 0, 1)
    return e.astype(k)


def check_reject(c):
    from pyEdgeEval.common.multi_label import rgb_multilabel_encoding
    e = np.zeros((c["K"], 2, 2), np.uint8)
    if c["set"]:
        e[c["K"] - 1, 0, 0] = 1
    try:
        rgb_multilabel_encoding(e)
    except Exception:
        return "rejected"
    expect(False, "%d classes were accepted by the RGB encoding" % c["K"])


def check_scale(c):
    from pyEdgeEval.common.multi_label import rgb_multilabel_encoding, default_multilabel_encoding, decode_png, decode_tif, load_scaled_edge
    h, w = c["shape"]
    K = 19
    v = (np.arange(h * w, dtype=np.int64) * 7919 + 1) % (1 << K)
    edges, v = stack(v, K, h, w)
    s = c["scale"]
    H, W = int(h * s + 0.5), int(w * s + 0.5)
    for ext in ("png", "tif"):
        p = tmp("s." + ext)
        if ext == "png":
            Image.fromarray(rgb_multilabel_encoding(edges)).save(p)
        else:
            Image.fromarray(default_multilabel_encoding(edges).astype(np.int32)).save(p)
        img, hw = load_scaled_edge(p, s)
        expect(tuple(hw) == (H, W), lambda: "scale %r of %dx%d gives %s" % (s, h, w, hw))
        d = np.asarray((decode_png if ext == "png" else decode_tif)(img, K))
        expect(d.shape == (K, H, W), "decoded shape")
        code = (d.astype(np.int64) << np.arange(K)[:, None, None]).sum(0)
        for y in range(H):
            for x in range(W):
                near = {v[yy, xx] for yy in cand(y, H, h) for xx in cand(x, W, w)}
                expect(code[y, x] in near, lambda: "%s at scale %r: pixel (%d,%d) is %d, not the nearest source code %s" % (ext, s, y, x, code[y, x], near))
        tick()
    return H, W


def check_large(c):
    """Larger images, hashed codes."""
    from pyEdgeEval.common.multi_label import rgb_multilabel_encoding, default_multilabel_encoding, decode_png, decode_tif, binary_multilabel_decoding, load_scaled_edge
    h, w = c["shape"]
    K = c["K"]
    edges, v = stack((np.arange(h * w, dtype=np.int64) * 2654435761 + c["salt"]) % (1 << K), K, h, w)
    enc = np.asarray(default_multilabel_encoding(edges))
    expect(np.array_equal(enc.astype(np.int64) & 0xffffffff, v), "32-bit code is wrong for %s" % c)
    files = {"tif": tmp("l.tif")}
    Image.fromarray(enc.astype(np.int32)).save(files["tif"])
    p = tmp("l.bin")
    enc.astype(np.uint32).tofile(p)
    same(binary_multilabel_decoding(p, h, w, K), edges, K, "binary file %s" % c)
    if K <= 24:
        rgb = np.asarray(rgb_multilabel_encoding(edges))
        expect(np.array_equal(code24(rgb), v), "RGB code is wrong for %s" % c)
        files["png"] = tmp("l.png")
        Image.fromarray(rgb).save(files["png"])
    for ext, p in files.items():
        dec = decode_png if ext == "png" else decode_tif
        same(dec(Image.open(p), K), edges, K, "%s file %s" % (ext, c))
        img, hw = load_scaled_edge(p, 0.5)
        H, W = int(h * 0.5 + 0.5), int(w * 0.5 + 0.5)
        d = np.asarray(dec(img, K)).astype(np.int64)
        expect(tuple(hw) == (H, W) and d.shape == (K, H, W), lambda: "half size of %s is %s" % (c, d.shape))
        code = (d << np.arange(K)[:, None, None]).sum(0)
        ok = np.zeros((H, W), bool)
        ys, xs = [cand(i, H, h) for i in range(H)], [cand(i, W, w) for i in range(W)]
        for a in (0, -1):
            for b in (0, -1):
                ok |= code == v[np.ix_([t[a] for t in ys], [t[b] for t in xs])]
        expect(ok.all(), lambda: "%s file at half scale: pixel %s is not a nearest source code (%s)" % (ext, np.argwhere(~ok)[0], c))
        tick(3)
    return int(v.sum() & 0xffff)


def cand(i, n, m):
    """Source indices nearest to the centre of output i (both when it falls between two)."""
    c = (i + 0.5) * m / n - 0.5
    lo = int(np.floor(c + 1e-9)); hi = int(np.ceil(c - 1e-9))
    best = min(abs(c - k) for k in (lo, hi))
    return [min(max(k, 0), m - 1) for k in (lo, hi) if abs(abs(c - k) - best) < 1e-6]


def build(tier):
    big = tier == "thorough"
    sc = []
    kinds = ["bool", "int64", "float32", "F", "chlast"]
    sc.append(product_scope("round_trip", [("K", range(1, 33)), ("shape", ["row", "grid", "col"]), ("kinds", [kinds])], check, note="every class count 1..32; every class subset up to 10 classes, beyond that every subset of <=3 or >=K-2 classes and every byte pattern; dtypes; PNG, TIFF and raw files; every smaller class count"))
    sc.append(product_scope("too_many", [("K", range(25, 41)), ("set", [0, 1])], check_reject, note="more than 24 classes"))
    sc.append(product_scope("scaled", [("shape", [(h, w) for h in range(1, 9) for w in (1, 4, 7)] if not big else [(h, w) for h in range(1, 13) for w in range(1, 13)]), ("scale", [0.25, 0.5, 0.51, 0.75, 1.0] if not big else [k / 16 for k in range(2, 17)] + [0.51, 0.33])], lambda c: check_scale(c) if min(int(c["shape"][0] * c["scale"] + .5), int(c["shape"][1] * c["scale"] + .5)) >= 1 else "empty", note="reduced-scale loading"))
    sc.append(product_scope("large", [("shape", [(1, 1000), (1000, 1), (3, 700), (257, 300), (300, 257), (100, 101)]), ("K", [1, 8, 9, 16, 17, 19, 20, 24, 25, 31, 32]), ("salt", [0, 12345, 7654321] if not big else [k * 99991 for k in range(12)])], check_large, note="larger images"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of every encoder and decoder, through memory and files, on the enumerated class subsets; compared with the bit definition (bit k = class k)",
                    assumptions=["between 11 and 32 classes the subsets explored are those listed; encoders treat pixels independently"])
