"""Dataset trees for the evaluators, with an expected result for every setting (used by P16, P17, P25, P26)."""
import functools, os, shutil
import numpy as np
import dsgen as ds
import evalmodel as em
import p13
from p18 import otf_gt, clear5, TRAIN2LABEL, NMSK
from core import expect, NoAnswer

KINDS = ["sbd", "reanno", "city", "half", "otf"]
NCLS = dict(sbd=20, reanno=20, city=19, half=19, otf=19)
SHAPE = dict(sbd=(118, 158), reanno=(118, 158), city=(118, 158), half=(118, 158), otf=(64, 48))
PRED_SUFFIX = dict(sbd=".png", reanno=".png", city="_leftImg8bit.png", half="_leftImg8bit.png", otf="_leftImg8bit.png", bsds=".png")
NAMES = dict(sbd=["2008_000002", "2008_000001", "zz"], reanno=["2008_000002", "2008_000001", "zz"],
             city=["bonn/bonn_000001_000019", "aachen/aachen_000000_000019", "x/x_1_2"])
NAMES["half"] = NAMES["otf"] = NAMES["city"]
CLASSES = dict(sbd=["aeroplane", "bicycle", "bird", "boat", "bottle", "bus", "car", "cat", "chair", "cow", "dining table", "dog", "horse", "motor bike", "person", "potted plant", "sheep", "sofa", "train", "tv/monitor"],
               city=["road", "sidewalk", "building", "wall", "fence", "pole", "traffic light", "traffic sign", "vegetation", "terrain", "sky", "person", "rider", "car", "truck", "bus", "train", "motorcycle", "bicycle"])
CLASSES["reanno"] = CLASSES["sbd"]
CLASSES["half"] = CLASSES["otf"] = CLASSES["city"]


def dense(shape, pts):
    a = np.zeros(shape, bool)
    for y, x in pts:
        a[y, x] = True
    return a


# ------------------------------------------------------------------ stored edges (sbd, reanno, city, half)
def gt_points(fam, split, k, cat, thin, inst):
    """Odd coordinates, so that they survive scale 0.5.  The number of lone points identifies file, split and category."""
    dy = 2 * (cat % 5)
    pts = []
    if k != 1 or cat % 2 == 0:                 # sample 1 lacks the odd categories
        pts += [(21 + dy, 31), (41 + dy, 31), (61 + dy, 31)]
        pts += [(30 + dy, 73), (51 + dy, 73)]      # met by what survives suppression at scale 1 and at scale 0.5
        lone = 1 + int(thin) + 2 * int(inst) + 4 * (fam in ("reanno", "half")) + 8 * (split == "test") + (cat + k) % 3
        pts += [(9 + 4 * (i % 20), 101 + 8 * (i // 20)) for i in range(lone)]
    return pts


def pred_map(shape, k, cat, full):
    dy = 2 * (cat % 5)
    p = np.zeros(shape, np.uint8)
    for (y, x), v in {(21, 31): 250, (43, 31): 200, (67, 31): 150, (61, 41): 210, (81, 31): 172, (41, 61): 120 + cat,
                     (30, 72): 250, (30, 73): 250, (51, 71): 250, (51, 73): 250, (51, 75): 250}.items():
        p[y + dy, x] = v
    p[91:94, 61:64] = 130 + 20 * k             # a block for thinning
    p[107, 9 + 6 * cat] = 215                  # inside the category's own region
    p[2, 3:9:2] = 220                          # inside the border SBD clears
    if k == 2:
        p[21 + dy, 31] = 90
    return p


@functools.lru_cache(None)
def stored(kind, split, k, cat, thin, inst):
    shape = SHAPE[kind]
    fam = kind
    g = dense(shape, gt_points(fam, split, k, cat, thin, inst))
    if kind == "half":
        g = ds.nearest(g, ds.scaled(shape, 0.5))
    return g


# ------------------------------------------------------------------ label maps (otf)
BIG = {12: (43, 5), 14: (43, 27), 4: (43, 16)}       # 9x9 regions with an interior


def otf_maps(k):
    shape = SHAPE["otf"]
    lab = np.zeros(shape, np.uint8)
    for cat in range(1, 20):
        label = TRAIN2LABEL[cat - 1]
        if k == 1 and (cat % 2 or cat == 14):
            continue
        y, x = 5 + 8 * ((cat - 1) // 5), 5 + 8 * ((cat - 1) % 5)
        if cat in BIG:
            lab[y, x] = label
            y, x = BIG[cat]
            lab[y:y + 9, x:x + 9] = label
        else:
            lab[y, x] = label
    lab[33:35, 1:20] = 3
    inst = lab.astype(np.int32)
    for l in (24, 26):
        ys, xs = np.where(lab == l)
        for y, x in zip(ys, xs):
            inst[y, x] = l * 1000 + (1 if y > 40 and x in (5, 27) else 2 if y < 40 and k else 0)
    return lab, inst


def otf_pred(k, cat):
    p = np.zeros(SHAPE["otf"], np.uint8)
    y, x = 5 + 8 * ((cat - 1) // 5), 5 + 8 * ((cat - 1) % 5)
    p[60:62, 44:46] = 100 + 30 * k              # far from everything
    p[57:60, 1:4] = 210 - 30 * k                # thick: for thinning
    p[1, 1 + cat] = 180
    if cat in BIG:
        p[y, x - 2] = 250                       # on the radius-2 band of the lone pixel
        y, x = BIG[cat]
        p[y + 4, x + 5] = 240                   # inside the region
        p[y - 3, x + 4] = 200                   # next to its band
    else:
        p[y, x - 2] = 250
        p[63 - cat % 3, 12 + cat] = 160
    return p


# ------------------------------------------------------------------ trees
def build(kind, root, pred, splits=("val",), cats=None, gt_dir=None, pred_suffix=None, samples=3):
    """kind: sbd (holds the re-annotated files too), city (holds half and label maps too)."""
    K = 20 if kind == "sbd" else 19
    cats = cats or range(1, K + 1)
    for split in splits:
        names = [n + ("" if split == "val" else "_" + split) for n in NAMES[kind][:samples]]
        ds.put(os.path.join(root, *(["%s.txt" % split] if kind == "sbd" else ["splits", "%s.txt" % split])), text="\n".join(names) + "\n")
        for k, n in enumerate(names):
            g = os.path.join(root, gt_dir or "gtEval", *([] if kind == "sbd" else [split]), n)
            for thin in (False, True):
                for inst in (False, True):
                    for fam, suf in (("sbd", ds.SBD_EDGE), ("reanno", ds.REANNO_EDGE)) if kind == "sbd" else (("city", ds.CITY_EDGE), ("half", ds.HALF_EDGE)):
                        ds.put(g + suf[thin, inst], ds.rgb(np.stack([stored(fam, split, k, c, thin, inst) for c in range(1, K + 1)])))
            shape = SHAPE[kind]
            # one label map cannot hold overlapping regions: categories 1 mod 5 .. are drawn in turn, the tests use the model below
            ds.put(g + ("_labelIds.png" if kind == "sbd" else "_gtFine_labelTrainIds.png"), seg_map(kind, k))
            if kind == "city":
                lab, inst = otf_maps(k)
                f = os.path.join(root, "gtFine", split, n)
                ds.put(f + "_gtFine_labelIds.png", lab)
                ds.put(f + "_gtFine_instanceIds.png", inst.astype(np.uint16))
            for c in cats:
                ds.put(os.path.join(pred, "class_%03d" % c, n + (pred_suffix or PRED_SUFFIX[kind])), pred_map(shape, k, c, True))
                if kind == "city":
                    ds.put(os.path.join(pred + "_half", "class_%03d" % c, n + (pred_suffix or PRED_SUFFIX[kind])), ds.nearest(pred_map(shape, k, c, True), ds.scaled(shape, 0.5)))
                    ds.put(os.path.join(pred + "_otf", "class_%03d" % c, n + (pred_suffix or PRED_SUFFIX[kind])), otf_pred(k, c))
    return root


@functools.lru_cache(None)
def seg_map(kind, k):
    """Every category owns every K-th column stripe inside the union of regions, so each has its own region."""
    K = 20 if kind == "sbd" else 19
    shape = SHAPE[kind]
    seg = np.full(shape, 0 if kind == "sbd" else 255, np.uint8)
    y, x = np.mgrid[:shape[0], :shape[1]]
    for c in range(1, K + 1):
        seg[seg_region(kind, c, shape)] = c if kind == "sbd" else c - 1
    return seg


def seg_region(kind, c, shape):
    """A cell of its own, with one prediction far from every boundary; stripes elsewhere."""
    y, x = np.mgrid[:shape[0], :shape[1]]
    return ((y // 2 == 53) & (x // 2 == (9 + 6 * c) // 2)) | ((y > 54) & (y < 90) & (x > 20) & (x < 50) & (x // 2 % 20 == c - 1))


@functools.lru_cache(None)
def owned(kind, cat, k):
    v = cat if kind in ("sbd", "reanno") else cat - 1
    return seg_map("sbd" if kind in ("sbd", "reanno") else "city", k) == v


# ------------------------------------------------------------------ expected results
@functools.lru_cache(None)
def image_counts(kind, split, k, cat, thin, inst, scale, md, kill, skip, at, an, thr):
    if kind == "otf":
        lab, ins = otf_maps(k)
        hw = ds.scaled(lab.shape, scale)
        L, I = ds.nearest(lab, hw), ds.nearest(ins, hw)
        label = TRAIN2LABEL[cat - 1]
        gt = otf_gt(L, I if inst else None, label, 1 if thin else 2)
        region = L == label
        pred = ds.nearest(otf_pred(k, cat), hw)
    else:
        if kind == "half":
            scale = 1.0
        g = stored(kind, split, k, cat, thin, inst)
        hw = ds.scaled(g.shape, scale)
        gt = ds.nearest(g, hw)
        shape = SHAPE[kind]
        pred = pred_map(shape, k, cat, True)
        if kind == "half":
            pred = ds.nearest(pred, ds.scaled(shape, 0.5))
        pred = ds.nearest(pred, hw)
        if kind in ("sbd", "reanno"):
            pred = clear5(pred)
        region = ds.nearest(owned(kind, cat, k), hw)
    c = em.counts(np.array(thr), pred / 255.0, gt, md, at, nms=an, nms_kwargs=NMSK, seg=region, kill_internal=kill, skip=skip)
    if c is None:
        raise NoAnswer("model out of its range: %s" % ((kind, k, cat, thin, inst, scale, md),))
    return [tuple(int(z[i]) for z in c) for i in range(len(thr))]


@functools.lru_cache(None)
def scores(kind, split, cat, thin, inst, scale, md, kill, skip, at, an, thr, samples=3):
    counts = [image_counts(kind, split, k, cat, thin, inst, scale, md, kill, skip, at, an, thr) for k in range(samples)]
    return counts, p13.model(list(thr), counts)


def names(kind, split="val", samples=3):
    return [n + ("" if split == "val" else "_" + split) for n in NAMES[kind][:samples]]


def read_rows(path):
    expect(os.path.isfile(path), lambda: "%s was not written" % path)
    return [l.split() for l in open(path).read().split("\n") if l.strip()]


def near6(a, b):
    return abs(float(a) - float(b)) <= 1.01e-6


def check_category(save_dir, overall, kind, split, cat, S, thr, samples=3, names_=None, what=""):
    """The saved files of one category (and the returned overall scores) are the expected ones."""
    counts, m = scores(kind, split, cat, S["thin"], S["inst"], S["scale"], S["md"], S["kill"], S["skip"], S["at"], S["an"], tuple(thr), samples)
    rows, ods, per, ois, auc, ap = m
    where = "%s category %d %s settings %s" % (kind, cat, what, S)
    d = os.path.join(save_dir, "class_%03d" % cat)
    got = read_rows(os.path.join(d, "eval_bdry_thr.txt"))
    expect(len(got) == len(rows) and all(near6(a, b) for g, r in zip(got, rows) for a, b in zip(g, r)), lambda: "%s: threshold rows (thr, rec, prec, F)\n%s\nexpected\n%s" % (where, got, [[round(v, 6) for v in r] for r in rows]))
    img = read_rows(os.path.join(d, "eval_bdry_img.txt"))
    nm = names_ or names(kind, split, samples)
    expect([r[0] for r in img] == nm, lambda: "%s: image rows %s" % (where, [r[0] for r in img]))
    for r, opts in zip(img, per):
        expect(any(all(near6(a, b) for a, b in zip(r[1:], o)) for o in opts), lambda: "%s: image row %s, expected %s" % (where, r, [o[:4] for o in opts]))
    o = read_rows(os.path.join(d, "eval_bdry.txt"))
    expect(len(o) == 1 and len(o[0]) == 9, lambda: "%s: overall row %s" % (where, o))
    o = [float(v) for v in o[0]]
    if overall is not None:
        expect(all(near6(o[i], overall[k]) for i, k in enumerate(p13.KEYS)), lambda: "%s: returned scores %s, saved %s" % (where, overall, o))
    expect(any(near6(o[3], f) and all(near6(o[i], c[i]) for i in range(3)) for c, f in ods), lambda: "%s: ODS %s, expected %s" % (where, o[:4], ods[:2]))
    expect(any(all(near6(o[4 + i], c[i]) for i in range(3)) for c in ois), lambda: "%s: OIS %s, expected %s" % (where, o[4:7], ois[:2]))
    expect(min(auc) - 2e-6 <= o[7] <= max(auc) + 2e-6 and min(ap) - 2e-6 <= o[8] <= max(ap) + 2e-6, lambda: "%s: AUC, AP %s, expected %s %s" % (where, o[7:], auc, ap))
    return o


def make(kind, root, pred, **kw):
    from pyEdgeEval import evaluators as E
    from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator
    cls = dict(sbd=E.SBDEvaluator, reanno=ReannoSBDEvaluator, city=E.CityscapesEvaluator, half=E.HalfCityscapesEvaluator, otf=E.OTFCityscapesEvaluator)[kind]
    sfx = {"half": "_half", "otf": "_otf"}.get(kind, "")
    return cls(dataset_root=root, pred_root=pred + sfx, **kw)


DEFAULT = dict(sbd=dict(scale=1.0, md=0.02), reanno=dict(scale=1.0, md=0.0075), city=dict(scale=0.5, md=0.0035), half=dict(scale=1.0, md=0.0035), otf=dict(scale=0.5, md=0.0035))


def settings(kind, cfg, thin):
    """Documented meaning of a set_eval_params call; None when it must be rejected."""
    mode = cfg.get("eval_mode")
    inst = cfg.get("instance_sensitive", True)
    scale = cfg.get("scale", DEFAULT[kind]["scale"])
    if kind != "half" and not 0 < scale <= 1:
        return None
    if kind == "half":
        scale = 1.0
    md = cfg.get("max_dist", DEFAULT[kind]["md"])
    kill, skip = cfg.get("kill_internal", False), cfg.get("skip_if_nonexistent", False)
    if kind == "reanno":
        kill = skip = False
    elif mode == "pre-seal":
        if inst and kind != "sbd":
            return None
        md, kill, skip, inst = 0.02, True, True, False
    elif mode == "post-seal":
        if kind == "sbd":
            md = 0.02
        kill = skip = not inst
    return dict(thin=thin, inst=inst, scale=float(scale), md=md, kill=kill, skip=skip, at=cfg.get("apply_thinning", False), an=cfg.get("apply_nms", False))
