"""P12: label-format conversions."""
import itertools
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from p09 import digits
from models import laid_out, LAYOUTS

ALPH = [0, 1, 7, 255]


def mask(c, dt="uint8"):
    h, w = c["shape"]
    return np.array([c["alph"][d] for d in digits(c["code"], h * w, len(c["alph"]))]).astype(dt).reshape(h, w)


def check_masks(c):
    from pyEdgeEval.utils import mask2onehot, mask_label2trainId
    sig = 0
    for dt in ("uint8", "int32", "int64"):
        m = mask(c, dt)
        keep = m.copy()
        for labels in c["labels"]:
            for L in (list(labels), tuple(labels), np.array(labels)):
                got = np.asarray(mask2onehot(m, L))
                tick()
                expect(got.shape == (len(labels),) + m.shape, lambda: "one-hot shape %s for labels %s" % (got.shape, labels))
                for k, l in enumerate(labels):
                    expect(np.array_equal(got[k].astype(int), (m == l).astype(int)), lambda: "channel %d (label %d) of the one-hot map of\n%s\nis\n%s" % (k, l, m, got[k]))
        for mp in c["maps"]:
            want = np.full(m.shape, 255)
            for y in range(m.shape[0]):
                for x in range(m.shape[1]):
                    if int(m[y, x]) in mp:
                        want[y, x] = mp[int(m[y, x])]
            for mm in (m, m[:, :, None]):
                got = np.asarray(mask_label2trainId(mm, dict(mp)))
                tick()
                expect(got.shape == m.shape and np.array_equal(got, want), lambda: "train ids %s of\n%s\nare\n%s" % (mp, m, got))
            sig = sig * 31 + int(want.sum())
        expect(np.array_equal(m, keep), "input mask was modified")
    return sig & 0xffffffff


def check_wide(c):
    """Label values beyond 8 bits, long label lists, larger masks."""
    from pyEdgeEval.utils import mask2onehot, mask_label2trainId, edge_label2trainId, edge_multilabel2binary
    h, w = c["shape"]
    base = np.arange(h * w) * c["mul"] + c["off"]
    m = (base % c["top"] - c["shift"]).astype(c["dt"]).reshape(h, w)
    vals = sorted(set(m.ravel().tolist()))
    labels = (vals + [v + 256 for v in vals if v + 256 not in vals][:5])[::-1][:300]
    got = np.asarray(mask2onehot(m, labels))
    tick()
    expect(got.shape == (len(labels), h, w), lambda: "one-hot shape %s" % (got.shape,))
    for k, l in enumerate(labels):
        expect(np.array_equal(got[k].astype(bool), m == l), lambda: "channel %d (label %d) is wrong for %s" % (k, l, c))
    mp = {l: i % 255 for i, l in enumerate(vals[::2])}
    want = np.full((h, w), 255)
    for l, t in mp.items():
        want[m == l] = t
    t = np.asarray(mask_label2trainId(m, mp))
    tick()
    expect(np.array_equal(t, want), lambda: "train ids differ for %s" % c)
    perm = {l: (l * 7 + 3) % len(labels) for l in range(len(labels))} if len(labels) % 7 else {l: len(labels) - 1 - l for l in range(len(labels))}
    e = np.asarray(edge_label2trainId(got, perm))
    tick()
    expect(e.shape == got.shape and all(np.array_equal(e[b], got[a]) for a, b in perm.items()), lambda: "edges in train ids differ for %s" % c)
    expect(np.array_equal(np.asarray(edge_multilabel2binary(got)).astype(bool), got.any(0)), lambda: "collapsed edges differ for %s" % c)
    return len(labels)


def check_edges(c):
    from pyEdgeEval.utils import edge_label2trainId, edge_multilabel2binary
    K, h, w = c["dims"]
    e = np.array(digits(c["code"], K * h * w, 2)).reshape(K, h, w)
    for dt in ("uint8", "bool", "int64"):
        a = e.astype(dt)
        keep = a.copy()
        got = np.asarray(edge_multilabel2binary(a))
        expect(got.shape == (h, w) and np.array_equal(got.astype(int), e.any(0).astype(int)), lambda: "collapsed edges of\n%s\nare\n%s" % (e, got))
        tick()
        for n in range(1, K + 1):
            for labels in itertools.permutations(range(K), n):
                mp = {l: i for i, l in enumerate(labels)}
                got = np.asarray(edge_label2trainId(a, mp))
                tick()
                expect(got.shape == (n, h, w) and all(np.array_equal(got[t].astype(int), e[l]) for l, t in mp.items()), lambda: "edges in train ids %s differ" % mp)
        expect(np.array_equal(a, keep), "input edges were modified")
    return int(e.sum())


def check_many(c):
    """Collapsing many classes (sums beyond 255)."""
    from pyEdgeEval.utils import edge_multilabel2binary
    K = c["K"]
    e = np.zeros((K, 2, 2), c["dt"])
    e[:c["n"], 0, 0] = 1
    got = np.asarray(edge_multilabel2binary(e))
    tick()
    expect(np.array_equal(got.astype(int), [[1 if c["n"] else 0, 0], [0, 0]]), lambda: "%d of %d classes set: %s" % (c["n"], K, got))
    return int(got.sum())


def check_inst(c):
    from pyEdgeEval.common.multi_label import convert_inst_seg
    n = len(c["cats"])
    m = np.array(digits(c["code"], 4, n + 1)).reshape(c["shape"])
    want = np.zeros(m.shape, int)
    seen = {}
    for i, cat in enumerate(c["cats"]):
        want[m == i + 1] = cat * 1000 + seen.get(cat, 0)
        seen[cat] = seen.get(cat, 0) + 1
    pres = {"sorted": sorted(set(c["cats"])), "order": list(dict.fromkeys(c["cats"])), "reverse": sorted(set(c["cats"]))[::-1]}
    for dt in ("uint8", "int32"):
        for p in pres.values():
            for wrap in (list, np.array):
                a = m.astype(dt)
                keep = a.copy()
                got = np.asarray(convert_inst_seg(a, wrap(c["cats"]), wrap(p)))
                tick()
                expect(got.shape == m.shape and np.array_equal(got, want), lambda: "instances of categories %s\n%s\nbecome\n%s\nexpected\n%s" % (c["cats"], m, got, want))
                expect(np.array_equal(a, keep), "input was modified")
    return tuple(want.ravel().tolist())


def check_inst_many(c):
    """More instances than ten of one category."""
    from pyEdgeEval.common.multi_label import convert_inst_seg
    n = c["n"]
    cats = [c["a"] if i % c["every"] else c["b"] for i in range(n)]
    m = np.arange(n + 1).reshape(1, -1)
    want, seen = np.zeros(n + 1, int), {}
    for i, cat in enumerate(cats):
        want[i + 1] = cat * 1000 + seen.get(cat, 0)
        seen[cat] = seen.get(cat, 0) + 1
    got = np.asarray(convert_inst_seg(m.astype(np.int32), np.array(cats), np.unique(cats)))
    tick()
    expect(np.array_equal(got.ravel(), want), lambda: "%d instances: %s" % (n, got))
    return n


def check_border(c):
    from pyEdgeEval.common.multi_label import add_ignore_pixel
    h, w = c["shape"]
    a = (np.arange(h * w).reshape(h, w) % 7 + 1).astype(c["dt"])
    src = a.copy()
    kw = {}
    b = c["b"]
    if b is not None:
        kw["border_px"] = b
    else:
        b = 5
    i = c["id"]
    if i is not None:
        kw["ignore_id"] = i
    else:
        i = 0
    got = np.asarray(add_ignore_pixel(a, **kw))
    tick()
    y, x = np.mgrid[:h, :w]
    want = np.where((y < b) | (x < b) | (y >= h - b) | (x >= w - b), i, src)
    expect(got.shape == (h, w) and np.array_equal(got, want), lambda: "border %s of %dx%d:\n%s" % (kw, h, w, got))
    return int((want == src).sum())


def check_layout(c):
    """Memory layouts of masks, edge stacks and instance maps."""
    from pyEdgeEval.utils import mask2onehot, mask_label2trainId, edge_label2trainId, edge_multilabel2binary
    from pyEdgeEval.common.multi_label import add_ignore_pixel, convert_inst_seg
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    m = (y * 3 + x * 5 + x * y) % 7
    l = lambda a: laid_out(a, c["layout"])
    dt = c["dt"]
    oh = np.array([m == k for k in range(7)])
    expect(np.array_equal(np.asarray(mask2onehot(l(m.astype(dt)), list(range(7)))).astype(bool), oh), lambda: "one-hot map differs for %s" % c)
    mp = {1: 4, 6: 0, 3: 1}
    want = np.full((h, w), 255)
    for k, v in mp.items():
        want[m == k] = v
    expect(np.array_equal(mask_label2trainId(l(m.astype(dt)), mp), want), lambda: "train ids differ for %s" % c)
    if c["layout"] != "last_axis":
        expect(np.array_equal(mask_label2trainId(l(m.astype(dt)[:, :, None]), mp), want), lambda: "train ids differ for a mask with one channel, %s" % c)
    e = np.asarray(edge_label2trainId(l(oh.astype(dt)), {5: 0, 2: 2, 0: 1}))
    expect(e.shape == (3, h, w) and np.array_equal(e.astype(bool), oh[[5, 0, 2]]), lambda: "edges in train ids differ for %s" % c)
    expect(np.array_equal(np.asarray(edge_multilabel2binary(l(oh[2:5].astype(dt)))).astype(bool), oh[2:5].any(0)), lambda: "collapsed edges differ for %s" % c)
    cats = [3, 1, 3, 20, 1, 3]
    wi = np.zeros((h, w), int)
    for i, k in enumerate(cats):
        wi[m == i + 1] = k * 1000 + cats[:i].count(k)
    expect(np.array_equal(convert_inst_seg(l(m.astype(dt)), np.array(cats), np.array([1, 3, 20])), wi), lambda: "instances differ for %s" % c)
    tick(6)
    if c["layout"] != "readonly":
        for b in (0, 1, 2):
            wb = np.where((y < b) | (x < b) | (y >= h - b) | (x >= w - b), 9, m)
            expect(np.array_equal(add_ignore_pixel(l(m.astype(dt)), border_px=b, ignore_id=9), wb), lambda: "border of %d pixels differs for %s" % (b, c))
            tick()
    return int(want.sum())


def build(tier):
    big = tier == "thorough"
    labels = [(0,), (7, 0), (1, 0, 7, 255), (255, 3, 1), (0, 1, 2, 3, 4, 5, 6, 7), (-1, 256, 263, 7), (257, -249), (7, 7), (1, 0, 1, 255, 0)]
    maps = [{}, {0: 0}, {7: 0, 1: 1}, {0: 255, 1: 2, 7: 1, 255: 0}, {1: 0, 0: 1}, {-1: 255, 7: 18}, {256: 3, 7: 1, 263: 2}, {-249: 5, -1: 4}]
    sc = [product_scope("masks", [("shape", [(2, 2), (1, 4), (4, 1)] + [(2, 3)] * 1), ("alph", [ALPH]), ("labels", [labels]), ("maps", [maps]), ("code", range(4 ** 4 if not big else 4 ** 6))], check_masks, note="every mask over 4 labels"),
          product_scope("edges", [("dims", [(3, 1, 2), (3, 2, 1), (2, 2, 2), (4, 1, 1)]), ("code", range(256))], check_edges, note="every binary edge stack of up to 8 bits, every injective label to train-id map"),
          product_scope("wide", [("shape", [(3, 100), (300, 2), (1, 260), (17, 19)]), ("mul", [1, 37, 256]), ("off", [0, 5]), ("top", [3, 34, 255, 256, 257, 600, 33001]), ("shift", [0, 1]), ("dt", ["int32", "int64"])], check_wide, note="label values beyond 8 bits, up to 300 labels, larger masks"),
          product_scope("many_classes", [("K", [255, 256, 257, 300, 512]), ("n", [0, 1, 128, 255]), ("dt", ["uint8", "bool", "int32"])], check_many),
          product_scope("many_classes_256", [("K", [256, 512]), ("n", [256]), ("dt", ["uint8", "bool", "int32"])], check_many),
          product_scope("instances", [("shape", [(2, 2), (4, 1)]), ("cats", [c for n in (1, 2, 3) for c in itertools.product((1, 2, 20), repeat=n)]), ("code", range(256))],
                        lambda c: check_inst(c) if c["code"] < (len(c["cats"]) + 1) ** 4 else "outside", note="every instance map with up to 3 instances of 3 categories"),
          product_scope("instances_many", [("n", [9, 10, 11, 30, 120, 254, 255, 256, 257, 300, 998]), ("a", [1, 15]), ("b", [2, 20]), ("every", [2, 3, 200])], check_inst_many),
          product_scope("border", [("shape", [(300, 7), (8, 300)] + [(h, w) for h in range(1, 14) for w in (1, 2, 5, 9, 10, 11, 13)]), ("b", [None, 0, 1, 2, 5, 6]), ("id", [None, 0, 255]), ("dt", ["uint8", "int32"])], check_border, note="every image size up to 13, borders wider than the image included")]
    sc.append(product_scope("layouts", [("shape", [(5, 7), (8, 3), (1, 6), (6, 1), (1, 1)]), ("layout", LAYOUTS), ("dt", ["uint8", "int32", "int64", "uint16"])], check_layout, note="memory layouts and types of masks, edge stacks and instance maps"))
    return sc, dict(budget=600 if tier == "quick" else 3000, how="direct execution of every conversion on every case of the listed spaces; compared pixel by pixel with the definition", assumptions=[])
