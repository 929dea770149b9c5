"""P06: thinning preserves topology, is a fixed point, both implementations agree."""
import numpy as np
from core import Scope, expect, tick
from models import bits, bits_many, tile, variants, shapes, EIGHT, FOUR, ndi


def topology(src, out):
    """src, out: bool canvases (with a zero frame). Message when out is not a topology preserving subset."""
    if (out & ~src).any():
        return "thinning set a pixel that was not set"
    ls, ns = ndi.label(src, EIGHT)
    lo, no = ndi.label(out, EIGHT)
    if no != ns:
        return "8-connected components: %d before, %d after" % (ns, no)
    if no:
        first = np.zeros(no + 1, np.int64)
        first[lo[out]] = ls[out]
        if len(np.unique(first[1:])) != ns:
            return "a component vanished while another split"
    bs, nbs = ndi.label(~src, FOUR)
    bo, nbo = ndi.label(~out, FOUR)
    if nbs != nbo:
        return "holes (4-connected background components): %d before, %d after" % (nbs, nbo)
    m = np.zeros(nbs + 1, np.int64)
    m[bs[~src]] = bo[~src]
    if len(np.unique(m[1:])) != nbo:
        return "a hole was filled or merged while another appeared"
    return None


def pad(a):
    return np.pad(np.asarray(a).astype(bool), 1)


def check_image(img, extra):
    from pyEdgeEval.preprocess import binary_thin, bwmorph_thin
    keep = img.copy()
    out = np.asarray(binary_thin(img))
    expect(np.array_equal(img, keep), "binary_thin modified its input")
    expect(out.shape == img.shape, "binary_thin changed the shape")
    msg = topology(pad(img), pad(out))
    expect(msg is None, lambda: "binary_thin: %s\n%s\n->\n%s" % (msg, img.astype(int), out.astype(int)))
    again = np.asarray(binary_thin(out))
    expect(np.array_equal(again.astype(bool), out.astype(bool)), lambda: "thinning again changes the result\n%s\n->\n%s\n->\n%s" % (img.astype(int), out.astype(int), again.astype(int)))
    bw = np.asarray(bwmorph_thin(img))
    expect(np.array_equal(img, keep), "bwmorph_thin modified its input")
    expect(np.array_equal(bw.astype(bool), out.astype(bool)), lambda: "the two thinning implementations differ\n%s\n->\n%s\nvs\n%s" % (img.astype(int), out.astype(int), bw.astype(int)))
    tick(3)
    if extra:
        for kind, v in variants(img, ("uint8", "int64", "float64", "F", "strided", "flipped")):
            k = v.copy()
            for f in (binary_thin, bwmorph_thin):
                o = np.asarray(f(v))
                expect(np.array_equal(v, k), "thinning modified its %s input" % kind)
                expect(np.array_equal(o.astype(bool), out.astype(bool)), lambda: "result depends on dtype/layout (%s, %s)\n%s\n->\n%s" % (f.__name__, kind, img.astype(int), o.astype(int)))
        v = img.astype(np.uint8) * 255
        expect(np.array_equal(np.asarray(binary_thin(v)).astype(bool), out.astype(bool)), "non-zero values are not read as set pixels")
        tick(13)
        iters(img, out)
    return out.astype(np.uint8).tobytes()


def iters(img, out):
    from pyEdgeEval.preprocess import binary_thin, bwmorph_thin
    zero = np.asarray(binary_thin(img, max_iter=0)).astype(bool)
    tick()
    expect(np.array_equal(zero, img.astype(bool)), lambda: "binary_thin: no pass at all changes the image\n%s\n->\n%s" % (img.astype(int), zero.astype(int)))
    for f, kw in ((binary_thin, "max_iter"), (bwmorph_thin, "n_iter")):
        step = img
        for k in range(1, 7):
            step = np.asarray(f(step, **{kw: 1})).astype(bool)
            direct = np.asarray(f(img, **{kw: k})).astype(bool)
            expect(np.array_equal(step, direct), lambda: "%s: %d passes at once differ from %d single passes\n%s\n->\n%s\nvs\n%s" % (f.__name__, k, k, img.astype(int), direct.astype(int), step.astype(int)))
            tick(2)
            if np.array_equal(step, out.astype(bool)):
                break


def check_tiled(imgs):
    """Many images at once on one canvas: valid because the canvas itself is an input of the real code."""
    from pyEdgeEval.preprocess import binary_thin, bwmorph_thin
    src = tile(imgs)
    out = np.asarray(binary_thin(src)).astype(bool)
    msg = topology(src, out)
    expect(msg is None, lambda: "binary_thin: %s; %s" % (msg, locate(imgs)))
    expect(np.array_equal(np.asarray(binary_thin(out)).astype(bool), out), lambda: "thinning again changes the result; %s" % locate(imgs))
    expect(np.array_equal(np.asarray(bwmorph_thin(src)).astype(bool), out), lambda: "the two thinning implementations differ; %s" % locate(imgs))
    return hash(out.tobytes())


def locate(imgs):
    for im in imgs:
        try:
            check_image(im, False)
        except Exception as e:
            return "first image on its own: %s" % e
    return "no single image fails on its own"


def families(tier):
    f = []
    big = tier == "thorough"
    for s in (2, 3) + ((4,) if big else ()):
        for (h, w) in ((3, 3), (4, 4)):
            if s == 4 and h == 4:
                continue
            f.append(("scaled%d_%dx%d" % (s, h, w), h, w, lambda b, s=s: np.repeat(np.repeat(b, s, 1), s, 2)))
    for t in (2, 3):
        for (h, w) in ((3, 3), (3, 4), (4, 4)):
            f.append(("holes_frame%d_%dx%d" % (t, h, w), h, w, lambda b, t=t: np.pad(~b, ((0, 0), (t, t), (t, t)), constant_values=True)))
    for (h, w) in ((3, 3), (4, 4)):
        f.append(("holes_scaled_%dx%d" % (h, w), h, w, lambda b: np.pad(np.repeat(np.repeat(~b, 2, 1), 2, 2), ((0, 0), (2, 2), (2, 2)), constant_values=True)))
    return f


def big_image(k, h, w):
    y, x = np.mgrid[:h, :w]
    if k < 512:
        b = bits(k, 3, 3)
        return np.kron(b, np.ones((-(-h // 3), -(-w // 3)), bool))[:h, :w].astype(bool)
    return [lambda: np.ones((h, w), bool), lambda: (y - h / 2.0) ** 2 + (x - w / 2.0) ** 2 <= min(h, w) ** 2 / 4.0, lambda: (y + x) % 40 < 30, lambda: ((y - 20) ** 2 + (x - 20) ** 2) % 300 < 200,
            lambda: (x % 50 < 45) & (y % 37 < 33), lambda: ~((y % 17 == 8) & (x % 23 == 11)), lambda: (y * 3 + x * 7) % 13 < 9][k - 512]()


def check_large(c):
    from pyEdgeEval.preprocess import binary_thin, bwmorph_thin
    img = big_image(c["k"], *c["shape"])
    check_image(img, False)
    full = np.asarray(binary_thin(img)).astype(bool)
    for f, kw in ((binary_thin, "max_iter"), (bwmorph_thin, "n_iter")):
        step, k = img, 0
        for n in c["limits"]:
            while k < n:
                step = np.asarray(f(step, **{kw: 1})).astype(bool)
                k += 1
            direct = np.asarray(f(img, **{kw: n})).astype(bool)
            expect(np.array_equal(step, direct), lambda: "%s: %d passes at once differ from %d single passes on image %s" % (f.__name__, n, n, c))
            tick(2)
    return int(img.sum()), int(full.sum())


def build(tier):
    sc = []
    direct = [s for s in shapes(12 if tier == "quick" else 16, 8)]
    table = []
    for h, w in direct:
        table += [(h, w)] * (1 << (h * w))if h * w <= 9 else []
    def case_small(i):
        for h, w in small:
            n = 1 << (h * w)
            if i < n:
                return dict(h=h, w=w, code=i)
            i -= n
    small = [(h, w) for h, w in direct if h * w <= 9]
    sc.append(Scope("small_all_variants", sum(1 << (h * w) for h, w in small), case_small,
                    lambda c: check_image(bits(c["code"], c["h"], c["w"]), True), note="every binary image with at most 9 pixels; dtypes, layouts, every pass limit"))
    for h, w in [(4, 3), (3, 4), (5, 2), (2, 5), (4, 4)] + ([(3, 5), (5, 3), (2, 8), (8, 2)] if tier == "thorough" else []):
        n = 1 << (h * w)
        sc.append(Scope("direct_%dx%d" % (h, w), n, lambda i, h=h, w=w: dict(h=h, w=w, code=i),
                        lambda c: check_image(bits(c["code"], c["h"], c["w"]), False), note="every image, called on its own"))
    B = 4096
    todo = [(4, 5), (5, 4)] + ([(5, 5), (4, 6), (3, 8)] if tier == "thorough" else [(3, 6)])
    for h, w in todo:
        n = 1 << (h * w)
        sc.append(Scope("tiled_%dx%d" % (h, w), -(-n // B), lambda i, h=h, w=w: dict(h=h, w=w, first=i * B, images=B),
                        lambda c: check_tiled(bits_many(c["first"], c["first"] + c["images"], c["h"], c["w"])), steps=3 * B, states=B,
                        note="every %dx%d image, %d per canvas" % (h, w, B)))
    for name, h, w, fn in families(tier):
        n = 1 << (h * w)
        b = min(B // 4, n)
        sc.append(Scope(name, -(-n // b), lambda i, h=h, w=w, b=b: dict(h=h, w=w, first=i * b, images=b),
                        lambda c, fn=fn: check_tiled(fn(bits_many(c["first"], c["first"] + c["images"], c["h"], c["w"]))), steps=3 * b, states=b,
                        note="every pattern, enlarged or cut out of a filled frame (several passes deep)"))

    def iter_case(i):
        return dict(code=i, scale=3)
    sc.append(Scope("iters_scaled", 512, iter_case, lambda c: (lambda im: (iters(im, np.zeros_like(im)), int(im.sum()))[1])(np.kron(bits(c["code"], 3, 3), np.ones((4, 4), bool)).astype(bool)),
                    note="pass limits 1..6 on every 3x3 pattern enlarged 4 times"))
    big = tier == "thorough"
    pats = list(range(0, 512, 1 if big else 7)) + list(range(512, 519))
    cases = [dict(k=k, shape=s, limits=(1, 2, 9, 10, 11, 21, 33)) for k in pats for s in ([(66, 75)] if not big else [(66, 75), (120, 93)])]
    cases += [dict(k=k, shape=s, limits=(5, 70)) for k in range(512, 519) for s in [(150, 160), (300, 9), (9, 300), (1, 500), (500, 1), (260, 257)]]
    sc.append(Scope("large", len(cases), lambda i: cases[i], check_large, note="large blobs, bands and lattices: tens of passes, pass limits up to 70"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of binary_thin and bwmorph_thin on every binary image of the listed sizes; topology decided by connected-component labelling of input and output (independent of the thinning tables)",
                    assumptions=["images larger than the enumerated ones are built from the same 3x3 neighbourhood rule"])
