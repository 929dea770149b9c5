"""P03: per-threshold counts for one ground truth, both evaluators."""
import itertools
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from models import bits, LAYOUTS
import evalmodel as em

LEV = (0.0, 0.25, 0.5, 1.0)
THR = [(0.25, 0.5, 0.75), (0.75, 0.25, 0.5), (0.5, 0.5, 1.0, 0.0), (0.3,), (1.0, 0.1), (2.0, 0.25), ()]
# strengths equal to and next to thresholds that no short binary fraction represents
NEAR = [(0.0, 0.1, 0.3, 0.7), (0.0, 51 / 255.0, 153 / 255.0, 204 / 255.0), (0.0, 1 / 3.0, 0.9, np.nextafter(0.9, 1)), (1e-300, 1e-9, 0.55, 1.1), (0.0, np.nextafter(0.3, 0), np.nextafter(0.7, 0), np.nextafter(0.1, 1)), (0.3 - 1e-13, 0.7 - 1e-10, 0.1 - 1e-8, 0.9 - 1e-6), (0.6 - 1e-15, 0.8 - 1e-12, 1.1 - 1e-7, 1 / 3.0 - 1e-5)]
NMS = [dict(r=1, s=5, m=1.01, half_prec=False), dict(r=2, s=0, m=1.0, half_prec=True)]


def level_map(code, h, w, lev=LEV):
    n = len(lev)
    out = np.empty(h * w)
    for i in range(h * w):
        code, k = divmod(code, n)
        out[i] = lev[k]
    return out.reshape(h, w)


def compare(got, want, what):
    expect(len(got) >= 4, "evaluation did not return four count arrays")
    for name, a, b in zip(("matched ground truth", "ground truth", "matched prediction", "prediction"), got, want):
        expect(np.shape(a) == np.shape(b) and np.array_equal(a, b), lambda: "%s pixels: %s, expected %s; %s" % (name, np.asarray(a).tolist(), np.asarray(b).tolist(), what()))


def check(c):
    from pyEdgeEval.common import binary_label, multi_label
    h, w = c["shape"]
    pred = level_map(c["pred"], h, w, c.get("lev", LEV))
    g = bits(c["gt"], h, w)
    out = []
    for thr in c["thr"]:
        thr = np.array(thr, dtype=float)
        for thin, nms in c["opts"]:
            kw = dict(max_dist=c["md"], apply_thinning=thin)
            nk = None
            if nms:
                nk = NMS[nms - 1]
                kw.update(apply_nms=True)
                if nms > 1:
                    kw.update(nms_kwargs=dict(nk))
            ref = {}
            for pd, gd in c["types"]:
                p, gt = pred.astype(pd), g.astype(gd)
                for skip in (False, True):
                    want = em.counts(thr, p, gt, c["md"], thin, bool(nms), nk, skip=skip)
                    if want is None:
                        continue
                    what = lambda: "thresholds %s thin=%s nms=%s skip=%s tolerance=%r\nprediction\n%s\nground truth\n%s" % (thr.tolist(), thin, nk, skip, c["md"], p, gt.astype(int))
                    if not skip:
                        compare(binary_label.evaluate_boundaries_threshold(thr, p, gt, **kw), want, lambda: "binary evaluator " + what())
                        tick()
                    compare(multi_label.evaluate_boundaries_threshold(thr, p, gt, skip_if_nonexistent=skip, **kw), want, lambda: "multi-label evaluator " + what())
                    tick()
                    out.append(tuple(int(x) for z in want for x in z))
                expect(np.array_equal(p, pred.astype(pd)) and np.array_equal(gt, g.astype(gd)), "inputs were modified")
    return tuple(out)


def big_maps(k, h, w):
    """Many pixels of which few can match."""
    y, x = np.mgrid[:h, :w]
    few = np.zeros((h, w), bool)
    few[[0, min(3, h - 1), h - 1, h // 2], [0, w - 1, w - 1, w // 2]] = True
    full = np.full((h, w), 0.8)
    full[h // 3:, ::3] = 0.4
    return [(full, few), (few * 0.9, np.ones((h, w), bool)), (np.where(few, 0.9, (y % 2 == 0) * 0.6), few), (few * 1.0, (x % 2 == 1) | few), (np.zeros((h, w)), np.ones((h, w), bool)), (full, np.zeros((h, w), bool))][k]


def check_big(c):
    """Counts beyond 8 and 16 bits; only coinciding pixels can match."""
    from pyEdgeEval.common import binary_label, multi_label
    h, w = c["shape"]
    pred, g = big_maps(c["k"], h, w)
    thr = np.array([0.3, 0.5, 0.7, 0.95])
    md = 0.4 / np.hypot(h, w)
    out = []
    for thin in (False, True):
        for skip in (False, True):
            want = em.counts(thr, pred, g, md, thin, skip=skip)
            what = lambda: "maps %d of %dx%d, thin=%s skip=%s" % (c["k"], h, w, thin, skip)
            if want is None:
                continue
            compare(multi_label.evaluate_boundaries_threshold(thr, pred.astype(c["dtype"]), g, max_dist=md, apply_thinning=thin, skip_if_nonexistent=skip), want, lambda: "multi-label evaluator " + what())
            tick()
            if not skip:
                compare(binary_label.evaluate_boundaries_threshold(thr, pred.astype(c["dtype"]), g, max_dist=md, apply_thinning=thin), want, lambda: "binary evaluator " + what())
                tick()
            out.append(tuple(int(x) for z in want for x in z))
    return tuple(out)


def check_long(c):
    """Long threshold lists."""
    from pyEdgeEval.common import binary_label, multi_label
    n = c["n"]
    thr = [np.linspace(1 / (n + 1), 1 - 1 / (n + 1), n), np.linspace(1 - 1 / (n + 1), 1 / (n + 1), n), np.tile([0.9, 0.1, 0.5], n)[:n]][c["order"]]
    pred = (level_map(c["pred"], 2, 3, (0.0, 0.2003, 0.5001, 0.8007)))
    g = bits(c["gt"], 2, 3)
    want = em.counts(thr, pred, g, 0.3, False)
    for name, f in (("binary", binary_label), ("multi-label", multi_label)):
        compare(f.evaluate_boundaries_threshold(thr, pred, g, max_dist=0.3, apply_thinning=False), want, lambda: "%s evaluator, %d thresholds, prediction\n%s\nground truth\n%s" % (name, n, pred, g.astype(int)))
        tick()
    return tuple(int(z.sum()) for z in want)


def check_layout(c):
    """Memory layouts of the prediction and the ground truth."""
    from pyEdgeEval.common import binary_label, multi_label
    from models import laid_out
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    pred = np.array([0.0, 0.9, 0.4, 0.4])[(y * 3 + x * 5 + x * y) % 7 % 4]
    g = np.zeros((h, w), bool)
    g[h // 2, 1:5] = g[0, w - 1] = True
    thr = np.array([0.3, 0.7])
    p, gt = laid_out(pred.astype(c["ptype"]), c["pred"]), laid_out(g.astype(c["gtype"]), c["gt"])
    keep = p.copy(), gt.copy()
    out = []
    for thin, nms in ((False, False), (True, False), (True, True)):
        want = em.counts(thr, pred.astype(c["ptype"]), g, 0.4 / np.hypot(h, w), thin, nms, NMS[0] if nms else None)
        if want is None:
            continue
        kw = dict(max_dist=0.4 / np.hypot(h, w), apply_thinning=thin, apply_nms=nms)
        runs = [("binary", binary_label.evaluate_boundaries_threshold(thr, p, gt, **kw)), ("multi-label", multi_label.evaluate_boundaries_threshold(thr, p, gt, **kw)), ("several-annotators", binary_label.evaluate_boundaries_threshold_multiple_gts(thr, p, [gt], **kw)),
                ("multi-label with a region", multi_label.evaluate_boundaries_threshold(thr, p, gt, gt_seg=laid_out(g * 0 > 0, c["gt"]), kill_internal=True, **kw))]
        for name, got in runs:
            compare(got, want, lambda: "%s evaluator, thin=%s nms=%s %s" % (name, thin, nms, c))
            tick()
        out.append(tuple(int(v) for z in want for v in z))
    expect(np.array_equal(p, keep[0]) and np.array_equal(gt, keep[1]), "inputs were modified")
    return tuple(out)


def build(tier):
    big = tier == "thorough"
    sc = []
    F = [("float64", "bool")]
    ALL = [("float64", "bool"), ("float32", "uint8")]
    T, N = (True, 0), (False, 0)
    sc.append(product_scope("all_2x2", [("shape", [(2, 2)]), ("pred", range(256)), ("gt", range(16)), ("md", [0.1, 0.4, 0.9] if big else [0.1, 0.4]), ("thr", [THR]), ("opts", [[T, N]]), ("types", [ALL if big else F])], check,
                            note="every 4-level prediction against every ground truth, 7 threshold lists, with/without thinning, both evaluators, skip on/off"))
    sc.append(product_scope("all_1x4", [("shape", [(1, 4), (4, 1)]), ("pred", range(256)), ("gt", range(16)), ("md", [0.3]), ("thr", [THR[:3]]), ("opts", [[T, N]]), ("types", [ALL])], check,
                            note="rows and columns, dtypes"))
    # strengths equal to thresholds that no short binary fraction represents
    eq = NEAR
    sc.append(product_scope("equal_strengths", [("shape", [(2, 2)]), ("pred", range(256)), ("gt", [0, 3, 6, 9, 14, 15]), ("md", [0.4]), ("lev", eq), ("thr", [[(0.1, 0.3, 0.7), (0.2, 0.6, 0.8), (1 / 3.0, 0.9, 1.1), (np.nextafter(0.9, 0), 1e-9, 0.55)]]), ("opts", [[N]]), ("types", [F])], check,
                            note="strengths equal to, and one rounding step from, decimal and grey-level thresholds"))
    # 3 levels on 2x3
    import functools
    lev3 = [sum(d * 4 ** i for i, d in enumerate(t)) for t in itertools.product((0, 1, 3), repeat=6)]
    sc.append(product_scope("all_2x3", [("shape", [(2, 3)] + ([(3, 2)] if big else [])), ("pred", lev3), ("gt", range(64) if big else [0, 1, 2, 5, 7, 9, 18, 21, 33, 42, 56, 63]), ("md", [0.3]), ("thr", [[(0.2, 1.0), (0.25,)]]), ("opts", [[T]]), ("types", [F])], check, note="3-level 2x3 predictions"))
    # thinning and suppression matter on 4x5: stroke-like predictions
    preds = []
    base = [c for c in range(0, 512)]
    for code in base[:: (1 if big else 5)]:
        b = np.pad(bits(code, 3, 3), ((0, 1), (0, 2))).astype(int)
        for other in (0b010010010, 0b111000111, 0b000111000):
            o = np.pad(bits(other, 3, 3), ((1, 0), (1, 1))).astype(int)
            m = np.where(b > 0, 3, np.where(o > 0, 2, 0)).ravel()
            preds.append(sum(int(d) * 4 ** i for i, d in enumerate(m)))
    gts = [0, 1 << 7, (1 << 6) | (1 << 7) | (1 << 8), (1 << 1) | (1 << 6) | (1 << 11), (1 << 0) | (1 << 19), 0b11111]
    sc.append(product_scope("strokes_4x5", [("shape", [(4, 5)]), ("pred", preds), ("gt", gts), ("md", [0.18]), ("thr", [[(0.4, 0.05), (0.9, 0.2)]]), ("opts", [[T, (True, 1), (False, 1), (True, 2), (False, 2)]]), ("types", [F])], check,
                            note="strokes of two strengths, thinning and suppression in every combination"))
    sc.append(product_scope("large", [("shape", [(13, 20), (1, 300), (300, 1), (61, 71), (300, 300)] + ([(256, 257), (600, 500)] if big else [])), ("k", range(6)), ("dtype", ["float64", "float32"])], check_big, note="counts beyond 8 and 16 bits", timeout=600))
    sc.append(product_scope("long_lists", [("n", [99, 255, 256, 300] + ([1000] if big else [])), ("order", range(3)), ("pred", [0b111001000110, 0b101101101101 + 4096 * 0, 228, 4095]), ("gt", [0, 5, 42, 63])], check_long, note="up to 300 (1000) thresholds, ascending, descending, repeating"))
    sc.append(product_scope("layouts", [("shape", [(9, 14), (14, 9)]), ("pred", LAYOUTS), ("ptype", ["float64", "float32"]), ("gt", LAYOUTS), ("gtype", ["bool", "uint8"])], check_layout, note="memory layouts of the prediction, the ground truth and the region, all three evaluators"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of both evaluate_boundaries_threshold functions on every case; expected counts from the definition, with the number of matches from an exact assignment solver",
                    assumptions=["thinning and suppression themselves are decided by P06 and P07 (called as functions here)", "only images whose match graph is complete are compared (P02's regime)"])
