"""P05: internal-prediction removal and skipping of absent categories."""
import fractions, itertools
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from models import bits, laid_out, LAYOUTS
import evalmodel as em
from p03 import level_map, compare, NMS


def check_direct(c):
    from pyEdgeEval.common.multi_label.options import kill_internal_prediction
    h, w = c["shape"]
    g, s = bits(c["gt"], h, w), bits(c["seg"], h, w)
    n = 0
    for gd in ("bool", "uint8"):
        for pc in c["preds"]:
            p = bits(pc, h, w)
            for md in c["md"]:
                gg = g.astype(gd)
                if gd == "bool":
                    gg = g.astype("int64")
                keep = p.copy(), gg.copy(), s.copy()
                got = np.asarray(kill_internal_prediction(p, gg, s, md))
                want = em.kill(p, g, s, md)
                tick()
                expect(np.array_equal(got.astype(bool), want), lambda: "kept pixels\n%s\nexpected\n%s\nprediction\n%s\nboundary\n%s\nregion\n%s\ntolerance %r of the diagonal" % (got.astype(int), want.astype(int), p.astype(int), g.astype(int), s.astype(int), md))
                expect(np.array_equal(p, keep[0]) and np.array_equal(gg, keep[1]) and np.array_equal(s, keep[2]), "inputs were modified")
                n = n * 31 + int(want.sum())
    return n & 0xffffffff


def check_eval(c):
    from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as ev
    h, w = c["shape"]
    pred = level_map(c["pred"], h, w)
    g, s = bits(c["gt"], h, w), bits(c["seg"], h, w)
    thr = np.array(c["thr"])
    out = []
    for thin, nms in c["opts"]:
        for k, sk in ((True, False), (True, True), (False, True), (False, False)):
            nk = NMS[nms - 1] if nms else None
            want = em.counts(thr, pred, g, c["md"], thin, bool(nms), nk, seg=s, kill_internal=k, skip=sk)
            if want is None:
                continue
            kw = dict(apply_nms=True, nms_kwargs=dict(nk)) if nms else {}
            gt = g.astype(c["gtype"])
            got = ev(thr, pred, gt, gt_seg=s, max_dist=c["md"], apply_thinning=thin, kill_internal=k, skip_if_nonexistent=sk, **kw)
            tick()
            compare(got, want, lambda: "thin=%s nms=%s kill_internal=%s skip_if_nonexistent=%s tolerance=%r\nprediction\n%s\nboundary\n%s\nregion\n%s" % (thin, nk, k, sk, c["md"], pred, gt.astype(int), s.astype(int)))
            if not k:
                compare(ev(thr, pred, gt, gt_seg=None, max_dist=c["md"], apply_thinning=thin, kill_internal=k, skip_if_nonexistent=sk, **kw), want, lambda: "without a region")
            out.append(tuple(int(x) for z in want for x in z))
    return tuple(out)


def check_types(c):
    """Regions and boundaries of every type that holds 0 and 1 (or any other non-zero value)."""
    from pyEdgeEval.common.multi_label.options import kill_internal_prediction
    from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as ev
    h, w = c["shape"]
    g, s, p = bits(c["gt"], h, w), bits(c["seg"], h, w), bits(c["pred"], h, w)
    out = []
    for md in c["md"]:
        want = em.kill(p, g, s, md)
        for st, one in (("bool", 1), ("uint8", 1), ("uint8", 255), ("int64", 1), ("int32", 7), ("uint16", 256), ("float64", 1)):
            for gt in ("bool", "uint8", "int64", "float64"):
                for pt in ("bool", "uint8", "float64"):
                    seg = (s * one).astype(st)
                    keep = seg.copy()
                    got = np.asarray(kill_internal_prediction(p.astype(pt), g.astype(gt), seg, md))
                    tick()
                    what = lambda: "region of type %s (%r), boundary %s, prediction %s: %s, expected %s" % (st, one, gt, pt, got.tolist(), want.astype(int).tolist())
                    expect(np.array_equal(got, want.astype(got.dtype)), what)
                    expect(np.array_equal(seg, keep) and seg.dtype == keep.dtype, lambda: "the region was modified (%s)" % st)
            r = ev(np.array([0.5]), p * 0.75, g, gt_seg=(s * one).astype(st), max_dist=md, apply_thinning=False, kill_internal=True, skip_if_nonexistent=False)
            tick()
            n = int(want.sum()) if g.any() else int(p.sum())
            expect(int(r[3][0]) == n and int(r[1][0]) == g.sum(), lambda: "region of type %s (%r): %d predictions and %d boundary pixels counted, expected %d and %d" % (st, one, r[3][0], r[1][0], n, g.sum()))
        out.append(int(want.sum()))
    return tuple(out)


def rects(h, w):
    r = {0}
    for y0, y1 in itertools.combinations(range(h + 1), 2):
        for x0, x1 in itertools.combinations(range(w + 1), 2):
            r.add(sum(1 << (y * w + x) for y in range(y0, y1) for x in range(x0, x1)))
    return sorted(r)


def fast_kill(p, g, s, t):
    """The same definition, all pixels at once (exact integer distances)."""
    if not g.any():
        return p.copy()
    d = np.full(p.shape, np.inf)
    yy, xx = np.mgrid[:p.shape[0], :p.shape[1]]
    for y, x in np.argwhere(g):
        d = np.minimum(d, (yy - y) ** 2 + (xx - x) ** 2)
    return p & ~(s & (d > t * t + 1e-9))


def check_big(c):
    """Larger maps: diagonals that are whole numbers, so distances equal to the tolerance occur."""
    from pyEdgeEval.common.multi_label.options import kill_internal_prediction
    from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as ev
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    g = [(y == h // 2) & (x == w // 2), ((y == h // 3) | (y == h - 1)) & (x % 29 == 3), (y == 0) & (x == 0), (y == h - 1) & (x == w - 1), np.zeros((h, w), bool)][c["gt"]]
    s = [np.ones((h, w), bool), x < w // 2, (y + x) % 3 > 0, np.zeros((h, w), bool)][c["seg"]]
    p = [np.ones((h, w), bool), (y * 3 + x) % 5 > 0][c["pred"]]
    out = []
    for md in c["md"]:
        want = fast_kill(p, g, s, em.tol_px((h, w), md))
        out.append(int(want.sum()))
        if not g.any():
            continue        # decided by the evaluator
        got = np.asarray(kill_internal_prediction(p, g.astype("uint8"), s, md)).astype(bool)
        tick()
        expect(np.array_equal(got, want), lambda: "%d pixels kept, expected %d; first difference at %s (image %dx%d, boundary %d, region %d, prediction %d, tolerance %r of the diagonal)" % (got.sum(), want.sum(), np.argwhere(got != want)[0], h, w, c["gt"], c["seg"], c["pred"], md))
    md = c["md"][0]
    r = ev(np.array([0.5]), p * 0.75, g, gt_seg=s, max_dist=md, apply_thinning=False, kill_internal=True, skip_if_nonexistent=False)
    tick()
    expect(int(r[3][0]) == out[0] and int(r[1][0]) == g.sum(), lambda: "%d predictions and %d boundary pixels counted, expected %d and %d (%s)" % (r[3][0], r[1][0], out[0], g.sum(), c))
    return tuple(out)


def check_irr(c):
    """Powers of two of the diagonal: the tolerance is exactly a distance such as 2*sqrt(2) or sqrt(5)."""
    h, w = c["shape"]
    n = 0
    for g2 in range(h * w):
        g = np.zeros(h * w, bool)
        g[[c["gt"] % (h * w), g2]] = True
        g = g.reshape(h, w)
        for s in (np.ones((h, w), bool), (np.add.outer(np.arange(h), np.arange(w)) % 3 > 0)):
            n = n * 31 + one_kill(np.ones((h, w), bool), g, s, c["md"])
    return n & 0xffffffff


def one_kill(p, g, s, mds):
    from pyEdgeEval.common.multi_label.options import kill_internal_prediction
    h, w = p.shape
    yy, xx = np.mgrid[:h, :w]
    d2 = np.min([(yy - y) ** 2 + (xx - x) ** 2 for y, x in np.argwhere(g)], axis=0)
    n = 0
    for md in mds:
        f = fractions.Fraction(md) ** 2 * (h * h + w * w)
        want = p & ~(s & (d2 * f.denominator > f.numerator))
        for dt in ("uint8", "int64"):
            got = np.asarray(kill_internal_prediction(p, g.astype(dt), s, md)).astype(bool)
            tick()
            expect(np.array_equal(got, want), lambda: "kept pixels\n%s\nexpected\n%s\nboundary\n%s\nregion\n%s\ntolerance %r of the diagonal" % (got.astype(int), want.astype(int), g.astype(int), s.astype(int), md))
        n = n * 31 + int(want.sum())
    return n


def check_layout(c):
    """Memory layouts of the prediction, the boundary and the region."""
    from pyEdgeEval.common.multi_label.options import kill_internal_prediction
    h, w = 7, 10
    y, x = np.mgrid[:h, :w]
    g, s, p = (y * 3 + x) % 13 == 4, (y + x * 2) % 5 > 1, (y * x + x) % 3 > 0
    out = []
    for t in (1.0, 1.5, 2.0):
        md = t / np.hypot(h, w) * (1 + 1e-9)
        want = fast_kill(p, g, s, t)
        got = np.asarray(kill_internal_prediction(laid_out(p, c["pred"]), laid_out(g.astype("uint8"), c["gt"]), laid_out(s.astype(c["stype"]), c["seg"]), md))
        tick()
        expect(np.array_equal(got.astype(bool), want), lambda: "kept pixels\n%s\nexpected\n%s\n%s" % (got.astype(int), want.astype(int), c))
        out.append(int(want.sum()))
    return tuple(out)


def build(tier):
    big = tier == "thorough"
    sc = []
    sc.append(product_scope("direct_3x3", [("shape", [(3, 3)]), ("gt", range(1, 512)), ("seg", range(512)), ("preds", [(511, 0b101010101)]), ("md", [(0.2, 0.25, 0.4, 0.6)] if big else [(0.25, 0.4)])], check_direct,
                            note="every non-empty boundary and every region on 3x3"))
    g34 = [sum(1 << p for p in s) for k in (1, 2) for s in itertools.combinations(range(12), k)]
    sc.append(product_scope("direct_3x4", [("shape", [(3, 4), (4, 3)]), ("gt", g34), ("seg", rects(3, 4) + [0b101010101010, 0b110011001100]), ("preds", [(4095, 0b011010110011)]), ("md", [(0.1, 0.2, 0.3, 0.4, 0.6)])], check_direct,
                            note="diagonal exactly 5: distances equal to the tolerance occur"))
    irr = [(2, 4), (4, 2), (4, 4), (2, 6), (6, 2), (4, 8), (6, 6)] + ([(8, 8), (6, 10), (4, 12), (3, 9)] if big else [])
    sc.append(product_scope("direct_irrational", [("shape", irr), ("gt", range(12)), ("md", [(0.125, 0.25, 0.5, 0.75)])], check_irr,
                            note="every boundary of one or two pixels among twelve positions; distances that are square roots and equal the tolerance"))
    sc.append(product_scope("types", [("shape", [(1, 5), (2, 3)] + ([(3, 3)] if big else [])), ("gt", [1, 2, 8, 18]), ("seg", range(32)), ("pred", [31, 21]), ("md", [(0.1, 0.3)])], check_types,
                            note="regions given as booleans, integers or floating-point numbers"))
    lev3 = [sum(d * 4 ** i for i, d in enumerate(t)) for t in itertools.product((0, 1, 3), repeat=4)]
    T, N = (True, 0), (False, 0)
    sc.append(product_scope("eval_2x2", [("shape", [(2, 2)]), ("pred", lev3), ("gt", range(16)), ("seg", range(16)), ("md", [0.1, 0.38]), ("thr", [(0.5, 0.2)]), ("opts", [[T, N]]), ("gtype", ["uint8"])], check_eval,
                            note="every 3-level prediction, boundary and region; four option combinations, with/without thinning"))
    lev1 = [sum(d * 4 ** i for i, d in enumerate(t)) for t in itertools.product((0, 3), repeat=6)]
    g6 = [sum(1 << p for p in s) for k in (0, 1, 2) for s in itertools.combinations(range(6), k)]
    sc.append(product_scope("eval_1x6", [("shape", [(1, 6)]), ("pred", lev1), ("gt", g6), ("seg", rects(1, 6)), ("md", [0.2] + ([0.4] if big else [])), ("thr", [(0.5,)]), ("opts", [[N]]), ("gtype", ["uint8"])], check_eval,
                            note="rows: removal by distance"))
    pr = []
    for code in range(1, 512, 1 if big else 6):
        m = np.pad(bits(code, 3, 3), ((0, 1), (1, 1))).astype(int) * 3
        m[3, 1:4] = 2
        pr.append(sum(int(d) * 4 ** i for i, d in enumerate(m.ravel())))
    gs = [0, 1 << 0, (1 << 15) | (1 << 16) | (1 << 17), 1 << 7]
    ss = [0, (1 << 20) - 1, sum(1 << (y * 5 + x) for y in range(0, 3) for x in range(1, 4))]
    sc.append(product_scope("eval_4x5", [("shape", [(4, 5)]), ("pred", pr), ("gt", gs), ("seg", ss), ("md", [0.16, 0.25]), ("thr", [(0.9, 0.2)]), ("opts", [[T, (True, 1), (False, 2)]]), ("gtype", ["uint8"])], check_eval,
                            note="thick predictions: thinning before removal, suppression"))
    sc.append(product_scope("large", [("shape", [(30, 40), (40, 30), (5, 12), (60, 80), (7, 301)] + ([(300, 400), (119, 120)] if big else [])), ("gt", range(5)), ("seg", range(4)), ("pred", range(2)), ("md", [(0.02, 0.1, 0.2, 0.26, 0.3, 0.5), (0.0075, 0.0602, 0.9)])], check_big, note="larger images, distances of whole pixels equal to the tolerance", timeout=600))
    sc.append(product_scope("layouts", [("pred", LAYOUTS), ("gt", LAYOUTS), ("seg", LAYOUTS), ("stype", ["bool", "uint8"])], check_layout, note="memory layouts of the prediction, the boundary and the region"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of kill_internal_prediction and evaluate_boundaries_threshold on every case, compared with the pixel-by-pixel definition (brute-force distances) and exact matching",
                    assumptions=["pixels of a region are those that are not zero"])
