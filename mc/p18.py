"""P18: one sample from disk."""
import itertools, os, shutil
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch
from models import bits
import dsgen as ds
import evalmodel as em
from p03 import compare
from p09 import digits, edges
import p04

LV = [0, 128, 255]
THR = [128 / 255, 0.2, 1.0, 0.75]
NMSK = dict(r=1, s=5, m=1.01, half_prec=False)
TRAIN2LABEL = [7, 8, 11, 12, 13, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31, 32, 33]


def wdir():
    d = os.path.join(scratch(), "p18-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def levels(code, h, w, lv=LV):
    return np.array([lv[d] for d in digits(code, h * w, len(lv))], np.uint8).reshape(h, w)


def others(gt, K, cat):
    """Ground-truth stack whose other channels all differ from the requested one."""
    e = np.zeros((K,) + gt.shape, bool)
    for k in range(K):
        e[k] = [~gt, np.roll(gt, 1, 1) ^ True, np.zeros_like(gt), np.ones_like(gt)][k % 4]
    e[cat - 1] = gt
    return e


def run(kind, sample):
    from pyEdgeEval import datasets
    f = {"sbd": datasets.sbd_eval_single, "city": datasets.cityscapes_eval_single, "otf": datasets.otf_cityscapes_eval_single, "bsds": datasets.bsds_eval_single}[kind]
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in sample.items()}
    got = f(sample)
    tick()
    expect(set(sample) == set(keep) and all(np.array_equal(sample[k], keep[k]) for k in keep), "the sample description was modified")
    return got


def params(opt, scale=1.0, md=0.02, thr=THR):
    kill, skip, thin, nms = opt
    return dict(scale=scale, max_dist=md, thresholds=list(thr), apply_thinning=bool(thin), apply_nms=bool(nms), kill_internal=bool(kill), skip_if_nonexistent=bool(skip))


def expected(pred8, gt, region, opt, md, thr=THR):
    kill, skip, thin, nms = opt
    return em.counts(np.array(thr), pred8 / 255.0, gt, md, thin, nms=bool(nms), nms_kwargs=NMSK, seg=region, kill_internal=bool(kill), skip=bool(skip))


OPTS = [(0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 1, 0), (0, 1, 1, 0), (1, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]
SBD_SHAPE, SBD_IN = (12, 13), (slice(5, 7), slice(5, 8))


def clear5(p):
    q = np.zeros_like(p)
    q[5:-5, 5:-5] = p[5:-5, 5:-5]
    return q


def two_d(kind, c):
    """Every prediction x ground truth on a 2x3 patch; categories, options and regions rotate."""
    d = wdir()
    p = levels(c["pred"], 2, 3)
    md = c["md"]
    K = 20 if kind == "sbd" else 19
    cats = [1, 2, 20] if kind == "sbd" else [1, 2, 12, 19]
    n = []
    if kind == "sbd":
        full = np.full(SBD_SHAPE, 255 if c["pred"] % 2 else 0, np.uint8)
        full[SBD_IN] = p
    else:
        full = p
    pp = ds.put(os.path.join(d, "p.png"), full)
    for gi in c["gts"]:
        g = bits(gi, 2, 3)
        rot = c["pred"] * 5 + gi * 3 + gi // 7 + c["rot"]
        cat = cats[rot % len(cats)]
        opt = OPTS[rot % len(OPTS)]
        reg = bits((gi * 37 + c["pred"] * 11) % 64, 2, 3)
        gt = np.zeros(full.shape, bool)
        region = np.zeros(full.shape, bool)
        if kind == "sbd":
            gt[SBD_IN], region[SBD_IN] = g, reg
            if rot % 4 == 0:
                region |= ~np.isin(np.arange(full.size).reshape(full.shape) % 5, (0, 1))
            val = cat
            wrong = [cat - 1, cat + 1, 255, 0]
        else:
            gt, region = g, reg
            val = cat - 1
            wrong = [cat, cat - 2 if cat > 1 else 255, 255, (cat + 7) % 19]
        seg = np.array([w for w in itertools.islice(itertools.cycle(wrong), gt.size)], np.uint8).reshape(gt.shape)
        seg[seg == val] = 255
        seg[region] = val
        ep = ds.put(os.path.join(d, "e.png"), ds.rgb(others(gt, K, cat)))
        sp = ds.put(os.path.join(d, "s.png"), seg)
        sample = dict(name="x", category=cat, edge_path=ep, seg_path=sp, pred_path=pp, num_classes=K, **params(opt, md=md))
        q = clear5(full) if kind == "sbd" else full
        want = expected(q, gt, region, opt, md)
        if want is None:
            continue
        n.append(int(sum(z.sum() * (k + 1) for k, z in enumerate(want))))
        got = run(kind, sample)
        compare(got, want, lambda: "%s category %d options (kill, skip, thin, nms)=%s tolerance=%r\nprediction\n%s\nground truth\n%s\nregion\n%s" % (kind, cat, opt, md, p, g.astype(int), reg.astype(int)))
        tick()
    return tuple(n)


def check_scaled(c):
    """Single-pixel prediction, ground truth and region at every position, loaded at a reduced scale."""
    kind = c["kind"]
    d = wdir()
    h, w = c["shape"]
    K, cat = (20, 3) if kind == "sbd" else (19, 3)
    s = c["scale"]
    H, W = ds.scaled((h, w), s)
    if min(H, W) < 1:
        return "empty"
    out = []
    y0, x0 = c["at"]
    pos = [(y0 + a, x0 + b) for a in range(3) for b in range(3) if y0 + a < h and x0 + b < w]
    psize = c["psize"] or (h, w)
    pred = np.zeros(psize, np.uint8)
    pred[min(y0, psize[0] - 1), min(x0, psize[1] - 1)] = 200
    if psize[0] > 2:
        pred[psize[0] // 2, psize[1] // 2] = 100
    pp = ds.put(os.path.join(d, "p.png"), pred)
    for k, (y, x) in enumerate(pos):
        gt = np.zeros((h, w), bool)
        gt[y, x] = True
        seg = np.full((h, w), 0 if kind == "sbd" else 255, np.uint8)
        region = np.zeros((h, w), bool)
        region[max(0, y - 1):y + 2, max(0, x - 1):x + 2] = True
        if k % 2:
            region = ~region
        val = cat if kind == "sbd" else cat - 1
        seg[region] = val
        opt = OPTS[:3][k % 3]
        if kind == "otf":
            continue
        ep = ds.put(os.path.join(d, "e.png"), ds.rgb(others(gt, K, cat)))
        if k % 4 == 2:          # a segmentation of another size
            seg = seg.repeat(2, 0).repeat(3, 1)
        elif k % 4 == 3 and min(h, w) > 2:
            seg = seg[::2, 1:]
        sp = ds.put(os.path.join(d, "s.png"), seg)
        q = ds.nearest(pred, (H, W))
        if kind == "sbd":
            q = clear5(q)
        g, r = ds.nearest(gt, (H, W)), ds.nearest(seg, (H, W)) == val
        md = 1.2 / np.hypot(H, W)
        want = expected(q, g, r, opt, md)
        if want is None:
            continue
        got = run(kind, dict(name="x", category=cat, edge_path=ep, seg_path=sp, pred_path=pp, num_classes=K, **params(opt, scale=s, md=md)))
        compare(got, want, lambda: "%s at scale %r of %dx%d (prediction %s): prediction pixel %s, ground truth pixel %s, options %s" % (kind, s, h, w, psize, (y0, x0), (y, x), opt))
        out.append(int(want[1][0]) * 4 + int(want[3][1]))
    return tuple(out)


OTF_LABELS = [0, 2, 7, 24, 26, 11]


def check_otf(c):
    """On-the-fly ground truth against the definition; the ground truth itself as prediction is perfect."""
    d = wdir()
    h, w = c["shape"]
    lab = np.array([OTF_LABELS[k] for k in digits(c["code"], h * w, len(OTF_LABELS))], np.uint8).reshape(h, w)
    y, x = np.mgrid[:h, :w]
    inst = lab.astype(np.int32)
    for l, f in ((24, (x + c["inst"]) % 2), (26, (y + x * c["inst"]) % 3)):
        if c["inst"] < 2 or l == 24:
            inst = np.where(lab == l, l * 1000 + f, inst).astype(np.int32)
    if c["inst"] == 3:  # one instance inside a group region, which carries the bare label
        inst = np.where(lab == 24, np.where((x + y) % 2, 24001, 24), inst)
        inst = np.where(lab == 26, np.where(y == 1, 26000 + 137, 26), inst).astype(np.int32)
    if c["inst"] == 4:  # an instance map that is not aligned with the label map
        inst = np.roll(np.where(lab == 26, 26000 + (x + y) % 2, inst), 1, 1).astype(np.int32)
    sp = ds.put(os.path.join(d, "s.png"), lab)
    ip = ds.put(os.path.join(d, "i.png"), inst.astype(np.uint16))
    n = 0
    for cat in ([1, 12, 14], [3, 12, 1], [14, 12, 3])[c["code"] % 3]:
        label = TRAIN2LABEL[cat - 1]
        s, radius, use_inst = c["scale"], [1, 2][(c["code"] + cat) % 2], (c["code"] // 2 + cat) % 3 > 0
        H, W = ds.scaled((h, w), s)
        L, I = ds.nearest(lab, (H, W)), ds.nearest(inst, (H, W))
        ch = list(range(34))
        gt = otf_gt(L, I if use_inst else None, label, radius)
        opt = [(0, 0, 0, 0), (1, 1, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0)][(c["code"] // 3 + cat) % 4]
        md = 0.75 / np.hypot(H, W)
        base = dict(name="x", category=cat, seg_path=sp, inst_path=ip if use_inst else None, radius=radius, num_labels=34, ignore_labels=[2, 3], num_classes=19)
        ph, pw = [(H, W), (h, w), (2 * h, w + 1), (max(1, H - 1), 3)][(c["code"] // 5 + cat) % 4]
        preds = [np.where((np.arange(ph * pw).reshape(ph, pw) + c["code"]) % 2, 255, 60).astype(np.uint8)]
        perfect = s == 1.0 and gt.any()
        if perfect:
            preds.append(gt.astype(np.uint8) * 255)
        for k, q in enumerate(preds):
            pp = ds.put(os.path.join(d, "p.png"), q)
            o = (0, 0, 0, 0) if k else opt
            want = expected(ds.nearest(q, (H, W)), gt, L == label, o, md)
            got = run("otf", dict(base, pred_path=pp, **params(o, scale=s, md=md)))
            if want is not None:
                compare(got, want, lambda: "on-the-fly category %d radius %d instances %s scale %r options %s\nlabels\n%s\ninstances\n%s\nprediction\n%s\nexpected ground truth\n%s" % (cat, radius, use_inst, s, o, lab, inst, q, gt.astype(int)))
            else:
                expect(int(got[1][0]) == gt.sum(), lambda: "on-the-fly category %d radius %d instances %s scale %r: %s ground-truth pixels, expected\n%s\nlabels\n%s\ninstances\n%s" % (cat, radius, use_inst, s, got[1], gt.astype(int), lab, inst))
            if k:
                for t in range(len(THR)):
                    expect(got[0][t] == got[1][t] == got[2][t] == got[3][t] > 0, lambda: "a prediction equal to the on-the-fly ground truth scores %s" % (got,))
            n += int(gt.sum())
    return n


def otf_gt(L, I, label, radius):
    from p08 import band
    ign = np.isin(L, (2, 3))
    m = L == label
    out = np.zeros(L.shape, bool)
    if label in (2, 3) or not m.any():
        return out
    out |= band(m, ign, radius, False)
    if I is not None:
        for v in np.unique(I):
            if v >= 1000 and v // 1000 == label:
                out |= band(I == v, ign, radius, False)
    return out


def check_bsds(c):
    d = wdir()
    h, w = c["shape"]
    p = levels(c["pred"], h, w)
    pp = ds.put(os.path.join(d, "p.png"), p)
    n = []
    for gs in c["gts"]:
        gts = [bits(g, h, w) for g in gs]
        if max(int(g.sum()) for g in gts) > 6:
            continue
        gp = os.path.join(d, "g.mat")
        ds.write_bsds_gt(gp, gts)
        thin = (c["pred"] + len(gs)) % 2 == 0
        md = c["md"]
        want = p04.model(np.array(THR), p / 255.0, gts, md, thin, 0)
        if want is None:
            continue
        got = run("bsds", dict(name="x", gt_path=gp, pred_path=pp, scale=1.0, max_dist=md, thresholds=list(THR), apply_thinning=thin, apply_nms=False))
        compare(got, want, lambda: "BSDS thin=%s tolerance=%r\nprediction\n%s\nannotators\n%s" % (thin, md, p, "\n".join(str(g.astype(int)) for g in gts)))
        n.append(int(want[0][0]))
    return tuple(n)


def perfect(got, n):
    """All n pixels match at every threshold (with many pixels the matcher's sparse outlier graph may leave one out)."""
    m1, s1, m2, s2 = (np.asarray(a) for a in got)
    ok = np.array_equal(s1, np.full(9, n)) and np.array_equal(s2, np.full(9, n)) and (m1 <= n).all() and (m2 <= n).all()
    return ok and (n > 6 or ((m1 == n).all() and (m2 == n).all()))


def check_perfect(c):
    """Ground truth as prediction scores precision and recall 1 at every threshold."""
    d = wdir()
    h, w = 3, 3
    g = bits(c["code"], h, w)
    if not g.any():
        return "empty"
    for kind in ("sbd", "city", "bsds"):
        if kind == "sbd":
            gt = np.zeros((13, 13), bool)
            gt[5:8, 5:8] = g
        else:
            gt = g
        pp = ds.put(os.path.join(d, "p.png"), gt.astype(np.uint8) * 255)
        for md in (0.0075, 0.02, 0.2):
            if kind == "bsds":
                gp = os.path.join(d, "g.mat")
                ds.write_bsds_gt(gp, [gt])
                got = run("bsds", dict(name="x", gt_path=gp, pred_path=pp, scale=1.0, max_dist=md, thresholds=9, apply_thinning=False, apply_nms=False))
            else:
                K, cat = (20, 7) if kind == "sbd" else (19, 7)
                ep = ds.put(os.path.join(d, "e.png"), ds.rgb(others(gt, K, cat)))
                sp = ds.put(os.path.join(d, "s.png"), np.full(gt.shape, cat if kind == "sbd" else cat - 1, np.uint8))
                for kill in (0, 1):
                    got = run(kind, dict(name="x", category=cat, edge_path=ep, seg_path=sp, pred_path=pp, num_classes=K, **dict(params((kill, kill, 0, 0), md=md), thresholds=9)))
                    n = int(gt.sum())
                    expect(perfect(got, n), lambda: "%s: ground truth as prediction gives %s for %d pixels (tolerance %r)" % (kind, got, n, md))
            n = int(gt.sum())
            expect(perfect(got, n), lambda: "%s: ground truth as prediction gives %s for %d pixels (tolerance %r)\n%s" % (kind, got, n, md, g.astype(int)))
    return n


def check_large(c):
    """Large images of which few pixels can match."""
    kind, (h, w) = c["kind"], c["shape"]
    d = wdir()
    y, x = np.mgrid[:h, :w]
    few = np.zeros((h, w), bool)
    for a, b in ((6, 7), (h // 2, w // 2), (h - 7, w - 9), (8, w - 8), (h - 6, 6)):
        few[a % h, b % w] = True
    far = (x + 3 * y) % 7 == 0
    pred = np.where(few, 230, np.where(far, [60, 150][c["k"] % 2], 0)).astype(np.uint8)
    if c["k"] == 2:
        pred[~few] = 140
    pp = ds.put(os.path.join(d, "p.png"), pred)
    md = 0.4 / np.hypot(h, w)
    thr = [0.2, 0.5, 0.9, 0.95]
    out = []
    if kind == "bsds":
        gts = [few] + [np.roll(few & (x > 8), i, 1) for i in range(1, [1, 9, 12][c["k"]])]
        gp = os.path.join(d, "g.mat")
        ds.write_bsds_gt(gp, gts)
        pred[~few & np.logical_or.reduce(gts)] = 0
        ds.put(pp, pred)
        for thin in (False, True):
            want = p04.model(np.array(thr), pred / 255.0, gts, md, thin, 0)
            if want is None:
                continue
            got = run("bsds", dict(name="x", gt_path=gp, pred_path=pp, scale=1.0, max_dist=md, thresholds=list(thr), apply_thinning=thin, apply_nms=False))
            compare(got, want, lambda: "BSDS %dx%d, %d annotators, thin=%s" % (h, w, len(gts), thin))
            out.append(tuple(int(z.sum()) for z in want))
        return tuple(out)
    for opt in OPTS[:6]:
        if kind == "otf":
            lab = np.full((h, w), 7, np.uint8)
            for i, (a, b) in enumerate(((3, 3), (h // 2, w // 3), (h // 2 + 3, w - 8))):
                lab[a:a + 4, b:b + 4] = [26, 11, 26][i]
            inst = np.where(lab == 26, 26000 + (x > w // 2) * c["k"] * 137, lab).astype(np.int32)
            sp, ip = ds.put(os.path.join(d, "s.png"), lab), ds.put(os.path.join(d, "i.png"), inst.astype(np.uint16))
            gt = otf_gt(lab, inst, 26, 2)
            q = pred.copy()
            q[gt] = 0
            q.flat[np.flatnonzero(gt)[:5]] = 230
            ds.put(pp, q)
            sample = dict(name="x", category=14, seg_path=sp, inst_path=ip, radius=2, num_labels=34, ignore_labels=[2, 3], num_classes=19, pred_path=pp, **params(opt, md=md, thr=thr))
            want = expected(q, gt, lab == 26, opt, md, thr)
        else:
            K, cat = (20, [20, 1, 9][c["k"]]) if kind == "sbd" else (19, [19, 9, 1][c["k"]])
            gt = few if opt != OPTS[2] else np.zeros_like(few)
            region = (x * y) % 3 > 0
            val = cat if kind == "sbd" else cat - 1
            seg = np.where(region, val, 255 if val == 0 else val - 1).astype(np.uint8)
            ep = ds.put(os.path.join(d, "e.png"), ds.rgb(others(gt, K, cat)))
            sp = ds.put(os.path.join(d, "s.png"), seg)
            q = clear5(pred) if kind == "sbd" else pred
            sample = dict(name="x", category=cat, edge_path=ep, seg_path=sp, pred_path=pp, num_classes=K, **params(opt, md=md, thr=thr))
            want = expected(q, gt, region, opt, md, thr)
        if want is None:
            continue
        compare(run(kind, sample), want, lambda: "%s %dx%d maps %d, options %s" % (kind, h, w, c["k"], opt))
        out.append(tuple(int(z.sum()) for z in want))
    return tuple(out)


def build(tier):
    big = tier == "thorough"
    sc = []
    chunk = [list(range(i, 64, 4)) for i in range(4)]
    rots = range(7) if big else [0]
    P = range(729)
    for kind in ("sbd", "city"):
        sc.append(product_scope(kind + "_patch", [("md", [0.02, 0.06 if kind == "sbd" else 0.3]), ("rot", rots), ("gts", chunk), ("pred", P if big else range(0, 729, 4))],
                                lambda c, kind=kind: two_d(kind, c), states=16, note="every 3-level prediction%s x every ground truth on a 2x3 patch; categories, regions and options rotate" % ("" if big else " (every fourth)")))
    for kind, shapes, scales in (("city", [(4, 6), (5, 7), (3, 3), (1, 5)], [0.25, 0.5, 0.6, 1.0]), ("sbd", [(24, 26), (23, 25)], [0.5, 0.55, 0.6, 1.0])):
        sc.append(list_scope(kind + "_scaled", [dict(kind=kind, shape=(h, w), scale=s, at=(y, x), psize=ps) for h, w in shapes for s in scales for y in range(h) for x in range(w) for ps in (None, (2 * h, 2 * w), (3, 4))
                                                if kind == "city" or (ps != (3, 4) and 8 <= y < 16 and 8 <= x < 18)], check_scaled, states=9, note="single pixels at every position, every scale, predictions of other sizes"))
    sc.append(product_scope("otf", [("shape", [(2, 3), (3, 2)]), ("inst", [0, 1, 2, 3, 4]), ("scale", [1.0]), ("code", range(0, 6 ** 6, 1 if big else 17))], check_otf, states=3, note="label maps over 6 labels (every one, or every 17th); instance layouts; radii"))
    sc.append(product_scope("otf_scaled", [("shape", [(4, 6), (5, 3)]), ("inst", [0, 1, 3]), ("scale", [0.5, 0.75]), ("code", [k * (6 ** 15 // 997) + k for k in range(400 if not big else 4000)])], check_otf, states=3, note="reduced scales (a fixed stride through the label maps)"))
    gsets = [(g,) for g in range(0, 64, 3)] + list(itertools.product((0, 1, 21, 42, 63, 9), repeat=2)) + list(itertools.combinations_with_replacement((0, 5, 40, 18), 3)) + [(1, 2, 4, 8, 16)] + [tuple((1 << (k % 6)) | (k & 3) for k in range(n)) for n in (6, 7, 8, 10, 11, 16)]
    sc.append(product_scope("bsds", [("shape", [(2, 3), (3, 2)]), ("md", [0.0075, 0.3]), ("gts", [gsets[i::6] for i in range(6)]), ("pred", range(0, 729, 1 if big else 10))], check_bsds, states=12, note="predictions x annotator sets"))
    sc.append(product_scope("perfect", [("code", range(512))], check_perfect, note="every 3x3 ground truth as its own prediction"))
    sc.append(product_scope("large", [("kind", ["sbd", "city", "otf", "bsds"]), ("shape", [(24, 31), (40, 300), (300, 40), (61, 71)] + ([(260, 270), (512, 300)] if big else [])), ("k", range(3))], check_large, note="large images of which few pixels can match; up to 12 annotators", timeout=600))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="every case is written to disk (PNG / MAT), evaluated by the real single-sample functions and compared with counts computed from the decoded content by definition",
                    assumptions=["nearest-neighbour sampling is PIL's; thinning and suppression are taken from the code (P06, P07)"])
