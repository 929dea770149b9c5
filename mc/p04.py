"""P04: several annotators of one image."""
import itertools
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from models import bits
import evalmodel as em
from p03 import level_map, compare, NMS, LEV, NEAR

THR = (0.5, 1.5, 0.2, 1.0)   # not ascending; 1.5 is above every strength
LISTS = [(), (0.5,), (2.0,), (2.0, 0.1), (0.2, 0.2, 0.9), (1.0, 0.5, 0.0), (3.0, 2.0, 0.6, 0.3), (0.1, 5.0, 4.0, 0.7)]


def model(thr, pred, gts, md, thin, nms):
    """Sums over annotators; a predicted pixel is correct when matched in at least one map."""
    from pyEdgeEval._lib import correspond_pixels
    from pyEdgeEval.preprocess import binary_thin, fast_nms
    z = [np.zeros(len(thr)) for _ in range(4)]
    if nms:
        pred = fast_nms(img=pred, **NMS[nms - 1])
    for i, t in enumerate(thr):
        p = pred >= t
        if thin:
            p = np.asarray(binary_thin(p)).astype(bool)
        hit = np.zeros(p.shape, bool)
        for g in gts:
            m = em.matches(p, g.astype(bool), md)
            if m is None:
                return None
            if m:
                hit |= correspond_pixels(p, g, max_dist=md)[0] > 0
            z[0][i] += m
            z[1][i] += (g != 0).sum()
        z[2][i], z[3][i] = hit.sum(), p.sum()
    return z


def check(c):
    from pyEdgeEval.common.binary_label import evaluate_boundaries_threshold, evaluate_boundaries_threshold_multiple_gts as multi
    h, w = c["shape"]
    pred = level_map(c["pred"], h, w, c.get("lev", LEV))
    gts = [bits(g, h, w).astype(c["dtype"]) for g in c["gts"]]
    out = []
    THR = np.array(c.get("thr", globals()["THR"]), float)
    for thin, nms in c["opts"]:
        kw = dict(max_dist=c["md"], apply_thinning=thin)
        if nms:
            kw.update(apply_nms=True)
            if nms > 1:
                kw.update(nms_kwargs=dict(NMS[nms - 1]))
        want = model(THR, pred, gts, c["md"], thin, nms)
        if want is None:
            continue
        what = lambda: "thin=%s nms=%s tolerance=%r\nprediction\n%s\nannotators\n%s" % (thin, nms, c["md"], pred, "\n".join(str(g.astype(int)) for g in gts))
        first = None
        for perm in itertools.permutations(range(len(gts))):
            got = multi(THR, pred, [gts[k] for k in perm], **kw)
            tick()
            compare(got, want, lambda: "order %s %s" % (perm, what()))
        if len(gts) == 1:
            compare(evaluate_boundaries_threshold(THR, pred, gts[0], **kw), want, lambda: "single-annotator evaluator " + what())
            tick()
        out.append(tuple(int(x) for z in want for x in z))
    return tuple(out)


def check_many(c):
    """Many annotators on a larger image; only coinciding pixels can match, so the pairing is unique."""
    from pyEdgeEval.common.binary_label import evaluate_boundaries_threshold_multiple_gts as multi
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    n = c["n"]
    pred = np.where((y * 7 + x * 3) % 11 < 2, 0.9, np.where((y + x) % 5 == 0, 0.4, 0.0)) if c["dense"] else np.zeros((h, w))
    pts = [((i * 7) % h, (i * 13) % w) for i in range(40)]
    if not c["dense"]:
        for i, q in enumerate(pts[:24]):
            pred[q] = (0.9, 0.4)[i % 2]
    gts = []
    for k in range(n):
        g = np.zeros((h, w), bool)
        for i in range(5):
            g[pts[(k * c["step"] + i * 3) % len(pts)]] = True
        gts.append(g)
    if c["empty"] is not None and c["empty"] < n:
        gts[c["empty"]][:] = False
    gts = [g.astype(c["dtype"]) for g in gts]
    thr = np.array([0.3, 0.5, 0.95])
    md = 0.4 / np.hypot(h, w)
    want = model(thr, pred, gts, md, False, 0)
    if want is None:
        return "outside"
    for order in (list(range(n)), list(range(n))[::-1], [(i * 5 + 1) % n for i in range(n)] if n % 5 else list(range(1, n)) + [0]):
        got = multi(thr, pred, [gts[k] for k in order], max_dist=md, apply_thinning=False)
        tick()
        compare(got, want, lambda: "%d annotators, %s" % (n, c))
    return tuple(int(v) for z in want for v in z)


def build(tier):
    big = tier == "thorough"
    T, N = (True, 0), (False, 0)
    sc = []
    lev = [sum(d * 4 ** i for i, d in enumerate(t)) for t in itertools.product((0, 1, 3), repeat=4)]
    pairs = list(itertools.combinations_with_replacement(range(16), 2))
    one = [(g,) for g in range(16)]
    tri = list(itertools.combinations_with_replacement(range(16), 3))
    sc.append(product_scope("one_2x2", [("shape", [(2, 2)]), ("pred", lev), ("gts", one), ("md", [0.1, 0.4]), ("opts", [[T, N]]), ("dtype", ["bool", "uint8"])], check, note="one annotator, both evaluators"))
    sc.append(product_scope("two_2x2", [("shape", [(2, 2)]), ("pred", lev), ("gts", pairs), ("md", [0.1, 0.4]), ("opts", [[T, N]]), ("dtype", ["bool"])], check, note="every pair of annotators (empty and equal ones included), both orders"))
    sc.append(product_scope("three_2x2", [("shape", [(2, 2)]), ("pred", lev if big else lev[1::4]), ("gts", tri if big else tri[::3]), ("md", [0.4]), ("opts", [[N]]), ("dtype", ["uint8"])], check, note="three annotators, all six orders"))
    lev5 = [sum(d * 4 ** i for i, d in enumerate(t)) for t in itertools.product((0, 3), repeat=5)]
    p5 = list(itertools.combinations_with_replacement(range(32), 2))
    sc.append(product_scope("two_1x5", [("shape", [(1, 5)]), ("pred", lev5), ("gts", p5), ("md", [0.25] + ([0.4] if big else [])), ("opts", [[N]]), ("dtype", ["bool"])], check, note="row images: each predicted pixel may match different annotators"))
    cand = [0, 1 << 5, (1 << 4) | (1 << 5) | (1 << 6), 1 << 0, (1 << 1) | (1 << 5) | (1 << 9), (1 << 3) | (1 << 10)]
    pr = []
    for code in range(0, 512, 1 if big else 3):
        m = np.pad(bits(code, 3, 3), ((0, 0), (0, 1))).astype(int) * 3
        m[1, 3] = 2
        pr.append(sum(int(d) * 4 ** i for i, d in enumerate(m.ravel())))
    sc.append(product_scope("strokes_3x4", [("shape", [(3, 4)]), ("pred", pr), ("gts", list(itertools.product(cand, repeat=2))), ("md", [0.2]), ("opts", [[T, (False, 1), (True, 2)]]), ("dtype", ["bool"])], check, note="thinning and suppression"))
    sc.append(product_scope("threshold_lists", [("thr", LISTS), ("shape", [(2, 2)]), ("pred", lev if big else lev[2::5]), ("gts", [(g,) for g in (0, 3, 9)] + pairs[::(5 if big else 9)]), ("md", [0.4]), ("opts", [[T, N, (False, 1)]]), ("dtype", ["uint8"])], check, note="lists of thresholds in any order, with repetitions, empty, and with levels that nothing reaches anywhere in them"))
    sc.append(product_scope("equal_strengths", [("thr", [(0.1, 0.3, 0.7), (0.9, 0.2, 0.6, 0.8), (1 / 3.0, 0.9, 1.1)]), ("lev", NEAR), ("shape", [(2, 2)]), ("pred", range(0, 256, 1 if big else 5)), ("gts", [(6,), (3, 9), (15, 0)]), ("md", [0.4]), ("opts", [[N]]), ("dtype", ["bool"])], check, note="strengths equal to, and one rounding step from, the thresholds"))
    sc.append(product_scope("many_annotators", [("shape", [(20, 31), (3, 300)] + ([(120, 160)] if big else [])), ("n", [1, 2, 3, 5, 6, 7, 8, 9, 12, 16, 17, 33]), ("step", [0, 1, 3, 5]), ("dense", [False, True]), ("empty", [None, 0, 4, 8]), ("dtype", ["bool", "uint8", "float64"])], check_many, note="up to 33 annotators (equal, overlapping, disjoint, empty) on larger images"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of evaluate_boundaries_threshold_multiple_gts on every case and every annotator order; recall side from an exact assignment solver, precision side from the union of the matched pixels per annotator",
                    assumptions=["which of several equally good pairings is chosen is taken from correspond_pixels (deterministic in this regime, see P01/P02)"])
