"""P09: multi-class and instance-sensitive edges."""
import itertools
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from p08 import band
from models import LAYOUTS


def digits(code, n, base):
    out = []
    for _ in range(n):
        code, d = divmod(code, base)
        out.append(d)
    return out


def thinned(e, thin):
    if not thin:
        return e
    from pyEdgeEval.preprocess import binary_thin
    return np.asarray(binary_thin(e.astype(np.uint8))).astype(bool)


def edges(lab, channels, ignore, radius, thin=False, internal=False, inst=None):
    """channels: label of each channel. Edge stack by definition."""
    ign = np.isin(lab, [channels[i] for i in ignore]) if ignore else np.zeros(lab.shape, bool)
    out = np.zeros((len(channels),) + lab.shape, bool)
    for k, l in enumerate(channels):
        m = lab == l
        if k in ignore or not m.any():
            continue
        e = band(m, ign, radius, internal)
        if inst is not None:
            for v in np.unique(inst):
                if v >= 1000 and v // 1000 == l:
                    e = e | band(inst == v, ign, radius, internal)
        out[k] = thinned(e, thin)
    return out


def onehot(lab, channels):
    return np.array([lab == l for l in channels]).astype(np.uint8)


def eq(got, want, what):
    expect(got.shape == want.shape, lambda: "edge stack has shape %s, expected %s; %s" % (got.shape, want.shape, what()))
    bad = got.astype(bool) != want
    expect(not bad.any() and np.isin(got, (0, 1)).all(), lambda: "class %d differs; %s\nedges\n%s\nexpected\n%s" % (np.argwhere(bad)[0][0] if bad.any() else -1, what(), got[np.argwhere(bad)[0][0] if bad.any() else 0].astype(int), want[np.argwhere(bad)[0][0] if bad.any() else 0].astype(int)))


def check_sem(c):
    from pyEdgeEval.edge_tools import loop_mask2edge, mask2edge, Mask2Edge
    h, w = c["shape"]
    ch = c["labels"]
    lab = np.array([ch[d] for d in digits(c["code"], h * w, len(ch))], dtype=np.uint8).reshape(h, w)
    oh = onehot(lab, ch)
    keep = oh.copy(), lab.copy()
    sig = 0
    for ign in c["ignore"]:
        for r in c["radii"]:
            for thin in (False, True):
                for internal, cv2 in ((False, True), (True, True), (False, False)):
                    if internal and not c["full"]:
                        continue
                    want = edges(lab, ch, ign, r, thin, internal)
                    what = lambda: "radius=%r thin=%s internal_only=%s use_cv2=%s ignored channels=%s\nlabels\n%s" % (r, thin, internal, cv2, ign, lab)
                    kw = dict(mask=oh, ignore_indices=list(ign), radius=r, thin=thin, use_cv2=cv2)
                    if internal:
                        kw["internal_only"] = True
                    eq(np.asarray(loop_mask2edge(**kw)), want, what)
                    tick()
                    if not thin and not internal:
                        eq(np.asarray(mask2edge(run_type="loop", instance_sensitive=False, **kw)), want, lambda: "mask2edge " + what())
                        t = Mask2Edge(labelIds=list(ch), ignore_indices=list(ign), radius=r, use_cv2=cv2)
                        res = t(lab)
                        eq(np.asarray(res["edge"]), want, lambda: "Mask2Edge " + what())
                        expect(np.array_equal(res["mask"], lab), "Mask2Edge changed the mask")
                        tick(2)
                    sig = sig * 31 + int(want.sum())
    expect(np.array_equal(oh, keep[0]) and np.array_equal(lab, keep[1]), "inputs were modified")
    return sig & 0xffffffff


def check_inst(c):
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, mask2edge, InstanceMask2Edge, loop_mask2edge
    h, w = c["shape"]
    states = c["states"]
    ch = list(range(c["channels"]))
    px = [states[d] for d in digits(c["code"], h * w, len(states))]
    lab = np.array([p[0] for p in px], dtype=np.uint8).reshape(h, w)
    inst = np.array([p[1] for p in px], dtype=np.int32).reshape(h, w)
    oh = onehot(lab, ch)
    keep = oh.copy(), inst.copy()
    sig = 0
    for ids in c["inst_labels"]:
        for ign in c["ignore"]:
            for r in c["radii"]:
                for thin in (False, True):
                    for internal, cv2 in ((False, True), (True, True), (False, False)):
                        if internal and not c["full"]:
                            continue
                        want = edges(lab, ch, ign, r, thin, internal, inst)
                        what = lambda: "radius=%r thin=%s internal_only=%s use_cv2=%s ignored=%s instance labels=%s\nlabels\n%s\ninstances\n%s" % (r, thin, internal, cv2, ign, ids, lab, inst)
                        kw = dict(mask=oh, inst_mask=inst, inst_labelIds=list(ids), ignore_indices=list(ign), radius=r, thin=thin, use_cv2=cv2)
                        if internal:
                            kw["internal_only"] = True
                        got = np.asarray(loop_instance_mask2edge(**kw))
                        eq(got, want, what)
                        tick()
                        if c.get("mp") and cv2 and not thin:
                            eq(np.asarray(mask2edge(run_type="mp", instance_sensitive=True, nproc=c["mp"], **kw))[:len(ch)], want, lambda: "mp " + what())
                            tick()
                            continue
                        if not thin and not internal:
                            sem = edges(lab, ch, ign, r, thin, internal)
                            expect(not (sem & ~got.astype(bool)).any(), "instance-sensitive edges lack insensitive ones")
                            eq(np.asarray(mask2edge(run_type="loop", instance_sensitive=True, **kw)), want, lambda: "mask2edge " + what())
                            t = InstanceMask2Edge(inst_labelIds=list(ids), labelIds=ch, ignore_indices=list(ign), radius=r, use_cv2=cv2)
                            eq(np.asarray(t(lab, inst)["edge"]), want, lambda: "InstanceMask2Edge " + what())
                            tick(2)
                        sig = sig * 31 + int(want.sum())
    expect(np.array_equal(oh, keep[0]) and np.array_equal(inst, keep[1]), "inputs were modified")
    return sig & 0xffffffff


def check_overlap(c):
    """Masks whose classes overlap or leave pixels without any class (every subset of the classes at every pixel)."""
    from pyEdgeEval.edge_tools import loop_mask2edge, loop_instance_mask2edge, mask2edge
    h, w = c["shape"]
    K = c["K"]
    px = np.array(digits(c["code"], h * w, 2 ** K), int).reshape(h, w)
    oh = np.array([(px >> k) & 1 for k in range(K)], np.uint8)
    y, x = np.mgrid[:h, :w]
    inst = np.where(oh[K - 1] > 0, 1000 * (K - 1) + (x + y * c["code"]) % 2, 0).astype(np.int32)
    keep, sig = oh.copy(), 0
    for ign in c["ignore"]:
        g = oh[list(ign)].any(0) if ign else np.zeros((h, w), bool)
        for r in c["radii"]:
            want = np.zeros(oh.shape, bool)
            for k in range(K):
                if k not in ign and oh[k].any():
                    want[k] = band(oh[k] > 0, g, r, False)
            wanti = want.copy()
            if K - 1 not in ign and oh[K - 1].any():
                for v in np.unique(inst):
                    if v >= 1000:
                        wanti[K - 1] |= band(inst == v, g, r, False)
            what = lambda: "radius=%r ignored=%s, classes (as bits) at each pixel\n%s\ninstances\n%s" % (r, ign, px, inst)
            kw = dict(mask=oh, ignore_indices=list(ign), radius=r)
            ki = dict(kw, inst_mask=inst, inst_labelIds=[K - 1, 1])
            if c["mp"]:
                eq(np.asarray(mask2edge(run_type="mp", instance_sensitive=False, nproc=c["mp"], **kw))[:K], want, lambda: "mp " + what())
                eq(np.asarray(mask2edge(run_type="mp", instance_sensitive=True, nproc=c["mp"], **ki))[:K], wanti, lambda: "mp, instances " + what())
                tick(2)
            else:
                for cv2 in (True, False):
                    eq(np.asarray(loop_mask2edge(use_cv2=cv2, **kw)), want, what)
                    eq(np.asarray(loop_instance_mask2edge(use_cv2=cv2, **ki)), wanti, lambda: "instances " + what())
                    tick(2)
                for thin in (True,):
                    eq(np.asarray(loop_mask2edge(thin=True, **kw)), np.array([thinned(e, True) if e.any() else e for e in want]), lambda: "thin " + what())
                    tick()
            sig = sig * 31 + int(wanti.sum())
    expect(np.array_equal(oh, keep), "the mask was modified")
    return sig & 0xffffffff


def check_large(c):
    """Many classes, many instances, large label numbers, larger images."""
    from pyEdgeEval.edge_tools import loop_mask2edge, loop_instance_mask2edge, mask2edge, Mask2Edge, InstanceMask2Edge
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    K = c["K"]
    bh, bw = c["cell"]
    lab = ((y // bh * 7 + x // bw * 3 + c["k"]) % K).astype(np.uint8)
    ids = [l for l in range(1, K) if l % 2 == 0] or [1]
    num = {}
    inst = lab.astype(np.int32)
    for l in ids:
        m = lab == l
        key = (y // max(1, bh // 2)) * 4096 + x // max(1, bw // 2)
        for n, v in enumerate(np.unique(key[m])):
            inst[m & (key == v)] = l * 1000 + (n * c["spread"]) % 1000
    ch = list(range(K))
    oh = onehot(lab, ch)
    ign = list(c["ignore"])
    keep = oh.copy(), inst.copy()
    what = lambda: str(c)
    for r in c["radii"]:
        want = edges(lab, ch, ign, r)
        for cv2 in (True, False):
            eq(np.asarray(loop_mask2edge(mask=oh, ignore_indices=ign, radius=r, use_cv2=cv2)), want, what)
        eq(np.asarray(Mask2Edge(labelIds=ch, ignore_indices=ign, radius=r)(lab)["edge"]), want, what)
        wi = edges(lab, ch, ign, r, inst=inst)
        eq(np.asarray(loop_instance_mask2edge(mask=oh, inst_mask=inst, inst_labelIds=ids, ignore_indices=ign, radius=r)), wi, what)
        eq(np.asarray(InstanceMask2Edge(inst_labelIds=ids, labelIds=ch, ignore_indices=ign, radius=r)(lab, inst)["edge"]), wi, what)
        tick(5)
    expect(np.array_equal(oh, keep[0]) and np.array_equal(inst, keep[1]), "inputs were modified")
    return int(want.sum()), int(wi.sum())


def check_options(c):
    """Options are passed on by every entry point: approximate distances, SciPy, fractional radii."""
    from pyEdgeEval.edge_tools import loop_mask2edge, loop_instance_mask2edge, mask2edge, Mask2Edge, InstanceMask2Edge
    import p08
    k, K = c["cell"], 4
    base = np.array(digits(c["code"], 9, K)).reshape(3, 3)
    lab = np.kron(base, np.ones((k, k), int)).astype(np.uint8)
    y, x = np.mgrid[:3 * k, :3 * k]
    inst = np.where(lab == 3, 3000 + (x > y), np.where(lab == 2, 2000 + (x + y) // k, lab)).astype(np.int32)
    ch, ids, ign = list(range(K)), [2, 3], [1]
    oh = onehot(lab, ch)
    s = 0
    for r in c["radii"]:
        for q, cv2 in ((0, True), (3, True), (5, True), (0, False)):
            keep = p08.band
            globals()["band"] = (lambda m, g, rr, i: p08.band_q(m, g, rr, i, q)) if cv2 else keep
            try:
                want, wi = edges(lab, ch, ign, r), edges(lab, ch, ign, r, inst=inst)
            finally:
                globals()["band"] = keep
            what = lambda: "quality=%d use_cv2=%s radius=%r\n%s\n%s" % (q, cv2, r, lab, inst)
            o = dict(radius=r, quality=q, use_cv2=cv2)
            ki = dict(inst_mask=inst, inst_labelIds=ids)
            runs = [loop_mask2edge(mask=oh, ignore_indices=ign, **o), mask2edge(run_type="loop", instance_sensitive=False, mask=oh, ignore_indices=ign, **o), Mask2Edge(labelIds=ch, ignore_indices=ign, **o)(lab)["edge"]]
            inst_runs = [loop_instance_mask2edge(mask=oh, ignore_indices=ign, **ki, **o), mask2edge(run_type="loop", instance_sensitive=True, mask=oh, ignore_indices=ign, **ki, **o), InstanceMask2Edge(inst_labelIds=ids, labelIds=ch, ignore_indices=ign, **o)(lab, inst)["edge"]]
            if c["mp"]:
                runs.append(mask2edge(run_type="mp", instance_sensitive=False, mask=oh, ignore_indices=ign, nproc=c["mp"], **o))
                inst_runs.append(mask2edge(run_type="mp", instance_sensitive=True, mask=oh, ignore_indices=ign, nproc=c["mp"], **ki, **o))
            for g in runs:
                eq(np.asarray(g)[:K], want, what)
            for g in inst_runs:
                eq(np.asarray(g)[:K], wi, lambda: "instance-sensitive " + what())
            tick(len(runs) + len(inst_runs))
            s = s * 31 + int(want.sum()) + 7 * int(wi.sum())
    return s & 0xffffffff


def check_layout(c):
    """Memory layout and type of the masks."""
    from pyEdgeEval.edge_tools import mask2edge, Mask2Edge, InstanceMask2Edge
    from models import laid_out
    K = 4
    h, w = c["shape"]
    y, x = np.mgrid[:h, :w]
    lab = ((y * 5 + x * 3 + y * x) % 7 % K).astype(np.uint8)
    inst = np.where(lab == 3, 3000 + (x > y), np.where(lab == 2, 2000 + (x + y) // 2, lab)).astype(np.int32)
    ch, ids = list(range(K)), [2, 3]
    oh = laid_out(onehot(lab, ch).astype(c["mtype"]), c["mask"])
    q = laid_out(inst.astype(c["itype"]), c["inst"])
    keep = oh.copy(), q.copy()
    s = 0
    for ign in ([], [1]):
        want, wi = edges(lab, ch, ign, 1), edges(lab, ch, ign, 1, inst=inst)
        what = lambda: str(c)
        kw = dict(mask=oh, ignore_indices=ign, radius=1)
        run = ["loop"] if not c["mp"] else ["loop", "mp"]
        for r in run:
            o = dict(kw, nproc=c["mp"]) if r == "mp" else kw
            eq(np.asarray(mask2edge(run_type=r, instance_sensitive=False, **o)), want, lambda: r + " " + what())
            eq(np.asarray(mask2edge(run_type=r, instance_sensitive=True, inst_mask=q, inst_labelIds=ids, **o)), wi, lambda: r + ", instance-sensitive " + what())
            tick(2)
        if not c["mp"]:
            l = laid_out(lab.astype(c["ltype"]), c["mask"])
            eq(np.asarray(Mask2Edge(labelIds=ch, ignore_indices=ign, radius=1)(l)["edge"]), want, lambda: "Mask2Edge " + what())
            eq(np.asarray(InstanceMask2Edge(inst_labelIds=ids, labelIds=ch, ignore_indices=ign, radius=1)(l, q)["edge"]), wi, lambda: "InstanceMask2Edge " + what())
            tick(2)
        s += int(wi.sum())
    expect(np.array_equal(oh, keep[0]) and np.array_equal(q, keep[1]), "inputs were modified")
    return s


def check_train(c):
    """Label -> train id mapping of the transforms (edges and masks)."""
    from pyEdgeEval.edge_tools import Mask2Edge, InstanceMask2Edge
    h, w = 2, 3
    lab = np.array(digits(c["code"], 6, 4), dtype=np.uint8).reshape(h, w)
    inst = np.where(lab == 3, 3000 + np.arange(6).reshape(h, w) % 2, lab).astype(np.int32)
    m = c["map"]
    for ign in ([], [1]):
        want = edges(lab, range(4), ign, 1)
        wi = edges(lab, range(4), ign, 1, inst=inst)
        wm = np.full(lab.shape, 255)
        for k, v in m.items():
            wm[lab == k] = v
        for t, args, e in ((Mask2Edge(labelIds=[0, 1, 2, 3], ignore_indices=ign, label2trainId=dict(m), radius=1), (lab,), want),
                           (InstanceMask2Edge(inst_labelIds=[3], labelIds=[0, 1, 2, 3], ignore_indices=ign, label2trainId=dict(m), radius=1), (lab, inst), wi)):
            res = t(*args)
            we = np.zeros((len(m), h, w), bool)
            for k, v in m.items():
                we[v] = e[k]
            eq(np.asarray(res["edge"]), we, lambda: "train ids %s\n%s" % (m, lab))
            expect(np.array_equal(res["mask"], wm), lambda: "mask in train ids differs: %s" % res["mask"])
            tick()
    return int(want.sum())


def check_reject(c):
    from pyEdgeEval.edge_tools import mask2edge
    try:
        mask2edge(run_type=c["run"], instance_sensitive=c["inst"], mask=np.ones((1, 2, 2), np.uint8), ignore_indices=[], radius=1)
    except ValueError:
        return "rejected"
    expect(False, "run type %r was accepted" % c["run"])


APART = [[(0, 0), (1, 1000), (2, 1000), (2, 2001), (0, 2001)], [(1, 0), (1, 2000), (2, 1002), (0, 1002), (2, 2000)]]


def build(tier):
    big = tier == "thorough"
    sc = []
    IG = [[], [0], [2], [1, 2]]
    sc.append(product_scope("labels_2x3", [("shape", [(2, 3), (3, 2)] if big else [(2, 3)]), ("labels", [(0, 1, 2), (7, 255, 3)]), ("ignore", [IG]), ("radii", [(1, 2)]), ("full", [True]), ("code", range(3 ** 6))], check_sem, note="every 3-label map, 4 ignore sets"))
    sc.append(product_scope("labels_2x2_4", [("shape", [(2, 2), (1, 4), (4, 1)]), ("labels", [(0, 1, 2, 3), (9, 4, 0, 200)]), ("ignore", [[[], [2, 3], [0, 3]]]), ("radii", [(1, 1.5, 3)]), ("full", [True]), ("code", range(256))], check_sem, note="every 4-label map"))
    sc.append(product_scope("labels_3x3", [("shape", [(3, 3)]), ("labels", [(0, 1, 2)]), ("ignore", [[[], [2]] if big else [[2]]]), ("radii", [(2,)]), ("full", [False]), ("code", range(0, 3 ** 9, 1 if big else 7))], check_sem, note="3x3 label maps (every code; every 7th when quick)"))
    S = [(0, 0), (1, 1000), (1, 1001), (2, 2000), (2, 2), (1, 1)]
    sc.append(product_scope("instances_2x3", [("shape", [(2, 3)]), ("states", [S]), ("channels", [3]), ("inst_labels", [[(1, 2)]]), ("ignore", [[[], [0]]]), ("radii", [(1, 2)] if big else [(2,)]), ("full", [False]), ("code", range(0, 6 ** 6, 1 if big else 11))], check_inst, note="pixels: background, class 1 with one of two instance ids or none, class 2 with/without instance id"))
    S2 = [(0, 0), (3, 3001), (11, 11000), (11, 11999), (12, 12001), (3, 3)]
    sc.append(product_scope("instances_2x2_wide", [("shape", [(2, 2), (1, 4)]), ("states", [S2]), ("channels", [13]), ("inst_labels", [[(3, 11, 12), (12, 3, 11)]]), ("ignore", [[[], [3], [0, 12]]]), ("radii", [(1, 2)]), ("full", [True]), ("code", range(0, 6 ** 4, 1 if big else 5))], check_inst, note="one- and two-digit labels, instance numbers 0, 1 and 999, unsorted instance labels"))
    S3 = [(0, 0), (33, 33000), (33, 33999), (24, 24001), (32, 32767), (33, 33)]
    sc.append(product_scope("instances_2x2_labels_33", [("shape", [(2, 2), (4, 1)]), ("states", [S3]), ("channels", [34]), ("inst_labels", [tuple([t]) for t in ((24, 25, 26, 27, 28, 31, 32, 33), (33, 24, 32))]), ("ignore", [[[], [2, 3]]]), ("radii", [(2,)]), ("full", [False]), ("code", range(0, 6 ** 4, 1 if big else 7))], check_inst, note="the 34 Cityscapes labels: instance ids up to 33999"))
    sc.append(product_scope("instances_apart", [("shape", [(2, 3), (1, 5)]), ("states", APART), ("channels", [3]), ("inst_labels", [[(1, 2), (2, 1)]]), ("ignore", [[[], [0]]]), ("radii", [(1, 2)]), ("full", [False]), ("code", range(0, 5 ** 6, 1 if big else 37))], check_inst, note="instances that reach beyond the pixels of their class (label and instance map drawn independently)"))
    sc.append(product_scope("overlapping", [("shape", [(2, 2), (1, 4)]), ("K", [3]), ("ignore", [[[], [0], [1, 2]]]), ("radii", [(1, 2)]), ("mp", [0]), ("code", range(0, 8 ** 4, 1 if big else 5))], check_overlap, note="every set of classes at every pixel: overlapping classes and pixels without a class"))
    sc.append(product_scope("overlapping_2x3", [("shape", [(2, 3), (3, 3)]), ("K", [3, 4]), ("ignore", [[[], [2]]]), ("radii", [(1, 2)]), ("mp", [0]), ("code", range(0, 8 ** 6, 211 if big else 1511))], check_overlap, note="the same on larger masks (strided)"))
    sc.append(product_scope("large", [("shape", [(24, 40), (6, 180), (180, 5)] if not big else [(24, 40), (6, 300), (300, 5), (48, 60)]), ("K", [2, 3, 5, 19, 34, 64]), ("cell", [(6, 8), (3, 2), (12, 20)]), ("k", [0] if not big else [0, 1]), ("spread", [1, 998] if not big else [1, 7, 998]), ("ignore", [(), (0,), (2, 1)][:2 if not big else 3]), ("radii", [(1, 2)] if not big else [(1, 2, 5)])], check_large, note="up to 64 classes, hundreds of instances, larger images", timeout=600))
    sc.append(product_scope("options", [("cell", [1, 3]), ("radii", [(1, 1.38, 2, 3.3)]), ("mp", [0]), ("code", range(0, 4 ** 9, 211 if big else 1511))], check_options, note="OpenCV's approximate distances and SciPy through every entry point (strided 3x3 maps of 4 labels, two with instances)"))
    sc.append(product_scope("layouts", [("shape", [(5, 7), (7, 4), (1, 6)]), ("mask", LAYOUTS), ("mtype", ["uint8", "bool"]), ("inst", LAYOUTS), ("itype", ["int32", "uint16", "int64"]), ("ltype", ["uint8", "int32"]), ("mp", [0])], check_layout, note="memory layouts and types of the masks"))
    maps = [{0: 0, 1: 1, 2: 2, 3: 3}, {3: 0, 1: 1}, {2: 1, 0: 0, 3: 2}, {1: 0}]
    sc.append(product_scope("train_ids", [("map", maps), ("code", range(0, 4096, 1 if big else 5))], check_train, note="label to train-id mappings of the transforms"))
    sc.append(product_scope("bad_run_type", [("run", ["", "Loop", "threads", None]), ("inst", [False, True])], check_reject))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of the loop implementation, mask2edge and both transforms on every label/instance map of the listed spaces; compared with brute-force boundary bands per class and instance",
                    assumptions=["thinning itself is decided by P06", "instance ids belong to labels listed as instance labels, except in the scope instances_apart"])
