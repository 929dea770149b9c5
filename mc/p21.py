"""P21: SBD conversion."""
import os, runpy, shutil, sys, itertools
import numpy as np
from PIL import Image
from core import product_scope, list_scope, expect, tick, scratch, NoAnswer, in_child
import dsgen as ds
from p09 import digits, edges

K = 20
# pixel states: (category, instance number in the file); instances are numbered from 1 in the order of `cats`
CATS_A = [7, 7, 20, 1]                          # category of instance 1, 2, 3, 4
STATES = [0, 1, 2, 3, 4]                        # instance shown by a pixel (0: background)


def annotation(interior, border, cats, rev):
    """Instance map of the whole image: interior surrounded by 5 pixels."""
    h, w = interior.shape
    if border == "edge":
        m = np.pad(interior, 5, mode="edge")
    elif border == "none":
        m = np.pad(interior, 5)
    elif border == "object":                    # an object that touches the interior from the border
        m = np.pad(interior, 5)
        m[2:5, 3:6] = len(cats)
        m[3:6, -5] = 1
    else:                                       # checkered border
        m = np.pad(interior, 5)
        yy, xx = np.mgrid[:m.shape[0], :m.shape[1]]
        c = (yy + 2 * xx) % (len(cats) + 1)
        out = np.ones(m.shape, bool)
        out[5:-5, 5:-5] = False
        m[out] = c[out]
    if rev:
        m = m[::-1, ::-1].copy()
    return m


def cell(stack):
    from scipy.sparse import csc_matrix
    c = np.empty((len(stack), 1), dtype=object)
    for i, s in enumerate(stack):
        c[i, 0] = csc_matrix(s.astype(np.uint8))
    return c


def compactify(m, cats):
    """Instances that show no pixel do not exist in the file."""
    keep = [i for i in range(1, len(cats) + 1) if (m == i).any()]
    out = np.zeros_like(m)
    for n, i in enumerate(keep):
        out[m == i] = n + 1
    return out, [cats[i - 1] for i in keep]


def write(root, name, m, cats, dt=np.uint8, noise=0):
    """cls_orig and inst_orig files.  Their stored boundaries are arbitrary (recomputed by the conversion)."""
    from scipy.io import savemat
    seg = np.zeros(m.shape, dt)
    for i, c in enumerate(cats):
        seg[m == i + 1] = c
    present = np.unique([c for i, c in enumerate(cats)]).astype(dt)
    cb = np.zeros((K,) + m.shape, np.uint8)
    cb[:, noise % m.shape[0]] = noise & 1
    cb[present.astype(int) - 1, noise % 3] = 1
    ib = np.zeros((len(cats),) + m.shape, np.uint8)
    for i in range(len(cats)):
        ib[i, :, (noise + i) % m.shape[1]] = 1
    for d in ("cls_orig", "inst_orig"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    savemat(os.path.join(root, "cls_orig", name + ".mat"), dict(GTcls=dict(Boundaries=cell(cb), Segmentation=seg, CategoriesPresent=present.reshape(-1, 1))))
    savemat(os.path.join(root, "inst_orig", name + ".mat"), dict(GTinst=dict(Segmentation=m.astype(dt), Boundaries=cell(ib), Categories=np.array(cats, dt).reshape(-1, 1))))
    return seg, cb, ib


def truth(m, cats):
    """label map, instance map."""
    lab = np.zeros(m.shape, int)
    inst = np.zeros(m.shape, int)
    seen = {}
    for i, c in enumerate(cats):
        lab[m == i + 1] = c
        inst[m == i + 1] = 1000 * c + seen.get(c, 0)
        seen[c] = seen.get(c, 0) + 1
    b = np.ones(m.shape, bool)
    b[5:-5, 5:-5] = False
    lab[b] = 21
    return lab, inst


def wanted(m, cats, radius, thin):
    lab, inst = truth(m, cats)
    r = 1 if thin else radius
    ch = list(range(22))
    non = edges(lab, ch, [21], r, thin)[1:21]
    sens = edges(lab, ch, [21], r, thin, inst=inst)[1:21]
    train = np.where((lab == 0) | (lab == 21), 255, lab - 1)
    return dict(edge=ds.rgb(non), isedge=ds.rgb(sens), label=lab, train=train, inst=inst, non=non, sens=sens)


def same_png(path, want, what):
    expect(os.path.isfile(path), lambda: "%s: %s was not written" % (what, os.path.basename(path)))
    got = np.array(Image.open(path)).astype(int)
    expect(got.shape == want.shape and np.array_equal(got, want), lambda: "%s: %s holds\n%s\nexpected\n%s" % (what, os.path.basename(path), dec(got), dec(want)))


def dec(a):
    return (a[..., 0].astype(int) << 16) + (a[..., 1].astype(int) << 8) + a[..., 2] if a.ndim == 3 else a


SUF = dict(edge="_a.png", isedge="_b.png", label="_c.png", train="_d.png", inst="_e.png")


def verify(out, name, W, what, segs, suf=SUF):
    for k in ("edge", "isedge") + (("label", "train", "inst") if segs else ()):
        same_png(os.path.join(out, name + suf[k]), W[k], what)


def convert(root, out, name, radius, thin, segs):
    from pyEdgeEval.helpers.convert_sbd import routine
    routine(sample_name=name, data_dir=root, save_dir=out, radius=radius, thin=thin, edge_suffix=SUF["edge"], isedge_suffix=SUF["isedge"], label_suffix=SUF["label"],
            train_suffix=SUF["train"], inst_suffix=SUF["inst"], save_segs=segs)
    tick()


def check(c):
    h, w = c["shape"]
    interior = np.array([STATES[d] for d in digits(c["code"], h * w, len(STATES))]).reshape(h, w)
    rot = c["code"] % 4 + c["rot"]
    m, cats = compactify(annotation(interior, ["edge", "none", "object", "checker"][rot % 4], CATS_A, rot % 3 == 1), CATS_A)
    d = ds.tmpdir()
    try:
        write(d, "2008_000001", m, cats, noise=c["code"])
        out = os.path.join(d, "out")
        os.makedirs(out)
        sig = []
        for thin, radius, segs in ((False, (2, 3, 5, 1, 4)[c["code"] // 6 % 5], True), (True, 3 if rot % 2 else 1, False)) + (((False, 1, False),) if rot % 5 == 0 else ()):
            W = wanted(m, cats, radius, thin)
            convert(d, out, "2008_000001", radius, thin, segs)
            what = "radius=%d thin=%s categories=%s instances\n%s\n" % (radius, thin, cats, m)
            verify(out, "2008_000001", W, what, segs)
            names = sorted(os.listdir(out))
            expect(names == sorted("2008_000001" + SUF[k] for k in (SUF if segs else ("edge", "isedge"))), lambda: "%s: wrote %s" % (what, names))
            for n in names:
                os.unlink(os.path.join(out, n))
            sig.append(int(W["sens"].sum()) * 1000 + int(W["non"].sum()))
        return tuple(sig)
    finally:
        shutil.rmtree(d)


def check_ids(c):
    """Every category and number of instances in the file, in every order of the instances."""
    from pyEdgeEval.helpers.convert_sbd import convert_mat2np
    cats = list(c["cats"])
    h, w = 4, 2 * max(len(cats), 1)
    interior = np.zeros((h, w), int)
    for i in range(len(cats)):
        interior[:2 + i % 2, 2 * i:2 * i + 2] = i + 1
    m = np.pad(interior, 5)
    d = ds.tmpdir()
    try:
        write(d, "x", m, cats, dt=c["dt"], noise=len(cats))
        W = wanted(m, cats, 2, False)
        cp, ip = os.path.join(d, "cls_orig", "x.mat"), os.path.join(d, "inst_orig", "x.mat")
        got = convert_mat2np(cls_path=cp, inst_path=ip, radius=2, thin=False)
        tick()
        what = "categories of the instances %s (%s)" % (cats, np.dtype(c["dt"]))
        for g, k in zip(got, ("sens", "label", "inst")):
            expect(np.array_equal(np.asarray(g).astype(int), W[k].astype(int)), lambda: "%s: %s is\n%s\nexpected\n%s" % (what, k, g, W[k]))
        got = convert_mat2np(cls_path=cp, inst_path=None, radius=2, thin=False)
        tick()
        for g, k in zip(got, ("non", "label")):
            expect(np.array_equal(np.asarray(g).astype(int), W[k].astype(int)), lambda: "%s: insensitive %s is\n%s\nexpected\n%s" % (what, k, g, W[k]))
        if c["dt"] is np.uint8:
            loaders(d, m, cats, W, cp, ip, what)
        return int(W["sens"].sum())
    finally:
        shutil.rmtree(d)


def loaders(d, m, cats, W, cp, ip, what):
    """The annotation readers return what the files hold, with either library."""
    from pyEdgeEval.helpers import convert_sbd as M
    seg, cb, ib = write(d, "y", m, cats, noise=7 + len(cats))
    cp, ip = cp.replace("x.mat", "y.mat"), ip.replace("x.mat", "y.mat")
    both = cb.copy()
    for i, k in enumerate(cats):
        both[k - 1] |= ib[i]
    for new in (False, True):
        w2 = "%s new_loader=%s" % (what, new)
        for f, args, arr in ((M.load_sbd_gt_cls_mat, (cp,), (cb, seg, np.unique(cats))), (M.load_sbd_gt_inst_mat, (ip,), (ib, m, cats)), (M.load_instance_insensitive_gt, (cp,), (cb, seg, np.unique(cats))),
                             (M.load_instance_sensitive_gt, (cp, ip), (both, seg, np.unique(cats)))):
            got = f(*args, new)
            tick()
            for g, x in zip(got, arr):
                g, x = np.asarray(g).astype(int), np.asarray(x).astype(int)
                expect(np.array_equal(g.reshape(x.shape) if x.size == g.size == 0 else g, x), lambda: "%s: %s returned\n%s\nexpected\n%s" % (w2, f.__name__, g, x))
        got = M.convert_mat2np(cls_path=cp, inst_path=ip, radius=2, thin=False, new_loader=new)
        for g, k in zip(got, ("sens", "label", "inst")):
            expect(np.array_equal(np.asarray(g).astype(int), W[k].astype(int)), lambda: "%s: %s is\n%s\nexpected\n%s" % (w2, k, g, W[k]))
        tick()


# ------------------------------------------------------------ re-annotated ground truth
RS = (3, 4)


def write_reanno(root, name, cb, ib, present, icats, seg):
    from scipy.io import savemat
    for d in ("cls", "inst"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    savemat(os.path.join(root, "cls", name + ".mat"), dict(GTcls=dict(Boundaries=cell(cb), Segmentation=seg, CategoriesPresent=np.array(present, np.uint8).reshape(-1, 1))))
    savemat(os.path.join(root, "inst", name + ".mat"), dict(GTinst=dict(Segmentation=(seg > 0).astype(np.uint8), Boundaries=cell(ib), Categories=np.array(icats, np.uint8).reshape(-1, 1))))


def re_sample(ca, cb_, ia, ib_, cats, fill=0):
    C, I = np.zeros((K,) + RS, bool), np.zeros((K,) + RS, bool)
    seg = np.zeros(RS, np.uint8)
    for cat, c, i in zip(cats, (ca, cb_), (ia, ib_)):
        C[cat - 1] = np.array(digits(c, 12, 2)).reshape(RS)
        I[cat - 1] = np.array(digits(i, 12, 2)).reshape(RS)
    for n, cat in enumerate(cats):
        seg[n] = cat
    if fill == 1 and cats:
        seg[seg == 0] = cats[-1]        # no background
    elif fill == 2:
        seg[:] = 0                      # boundaries without any pixel of the category
    elif fill == 3 and cats:
        seg[:] = cats[0]
    return C, I, seg


def check_reanno(c):
    from pyEdgeEval.helpers.convert_sbd import reanno_routine
    cats = c["cats"]
    C, I, seg = re_sample(c["cls"], c["cls"] * 37 % 4096, c["inst"], c["inst"] * 11 % 4096, cats, (c["cls"] + c["inst"] + cats[0]) % 4 if cats else 0)
    d = ds.tmpdir()
    try:
        write_reanno(d, "s", C, I, cats, c["icats"] if c["icats"] is not None else cats, seg)
        out = os.path.join(d, "out")
        os.makedirs(out)
        reanno_routine(sample_name="s", data_dir=d, save_dir=out, edge_suffix="_a.png", isedge_suffix="_b.png")
        tick()
        what = "categories %s\ncategory boundaries\n%s\ninstance boundaries\n%s\n" % (cats, dec(ds.rgb(C)), dec(ds.rgb(I)))
        same_png(os.path.join(out, "s_a.png"), ds.rgb(C), what)
        same_png(os.path.join(out, "s_b.png"), ds.rgb(C | I), what)
        expect(sorted(os.listdir(out)) == ["s_a.png", "s_b.png"], lambda: "wrote %s" % os.listdir(out))
        return int((C | I).sum())
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------ histories and the script
def sname(x):
    # one name has a dot, one ends in letters of a suffix, one holds a space
    return dict(a="2008_00000", b="v1.2_00000", c="img png.", e="2008_00000").get(x) + x


def demo_samples():
    a = np.array([[1, 2, 0], [1, 2, 3], [4, 4, 3]])
    b = np.array([[0, 3, 3, 1], [0, 3, 2, 1]])
    c = np.zeros((2, 3), int)
    e = np.array([[2, 2], [1, 1], [2, 1]])
    out = {}
    for n, (i, border) in dict(a=(a, "edge"), b=(b, "object"), c=(c, "none"), e=(e, "checker")).items():
        out[sname(n)] = compactify(annotation(i, border, CATS_A, n == "b"), CATS_A)
    return out


RE = dict(a=(0b101, 0b110010, 0b1100, 0b1, [7, 20]), b=(0b111100001111, 9, 0b1000, 0b11, [1, 7]), c=(77, 1234, 5, 6, [20, 1]))


def demo_tree(root, train, val, re_raw=None, re_thin=None):
    S = demo_samples()
    for i, n in enumerate(sorted(set(train) | set(val))):
        write(root, n, *S[n], noise=i)
    for s, names in (("train", train), ("val", val)):
        ds.put(os.path.join(root, s + ".txt"), text="".join(n + "\n" for n in names))
    want = {}
    for kind, names in (("raw", re_raw), ("thin", re_thin)):
        if names is None:
            continue
        from scipy.io import savemat
        r = os.path.join(root, "gt_reanno_" + kind)
        for n in names:
            v = RE[n[-1]]
            if kind == "thin":
                v = (v[0] ^ 5, v[1], v[2], v[3] ^ 2, v[4])
            C, I, seg = re_sample(*v)
            write_reanno(r, n, C, I, v[4], v[4], seg)
            want[n + "_reanno_%s_edge.png" % kind] = ds.rgb(C)
            want[n + "_reanno_%s_isedge.png" % kind] = ds.rgb(C | I)
        lst = np.empty((1, len(names)), dtype=object)
        for i, n in enumerate(names):
            lst[0, i] = n
        savemat(os.path.join(r, "test.mat"), dict(listTest=lst))
    return want


_W = {}


def demo_want(n, thin, radius):
    k = (n, thin, radius)
    if k not in _W:
        _W[k] = wanted(*demo_samples()[n], radius, thin)
    return _W[k]


def check_history(c):
    """Every sequence of conversions in one process; each leaves exactly its own result."""
    d = ds.tmpdir()
    try:
        names = [sname(x) for x in "abe"]
        demo_tree(d, names, names)
        out = os.path.join(d, "out")
        os.makedirs(out)
        for x, thin, radius in c["ops"]:
            n = sname(x)
            convert(d, out, n, radius, thin, True)
            verify(out, n, demo_want(n, thin, radius), "after %s" % (c["ops"],), True)
        expect(set(os.listdir(out)) == {sname(o[0]) + s for o in c["ops"] for s in SUF.values()}, lambda: "%s wrote %s" % (c["ops"], os.listdir(out)))
        return len(set(c["ops"]))
    finally:
        shutil.rmtree(d)


def script(path, argv, cwd):
    import core
    def go():
        os.chdir(cwd)
        sys.argv = [path] + argv
        runpy.run_path(os.path.join(core.boot(), "scripts", "convert_datasets", path), run_name="__main__")
    return in_child(go, 200)


FS = dict(label="_labelIds.png", train="_trainIds.png", inst="_instanceIds.png")


def check_script(c):
    top = ds.tmpdir()
    try:
        root = os.path.join(top, "data", "sbd") if c["root"] is None else os.path.join(top, c["root"])
        os.makedirs(root)
        full = [sname(x) for x in c["train"]], [sname(x) for x in c["val"]]
        rer = [sname(x) for x in c["reanno"][0]] if c["reanno"] else None
        ret = [sname(x) for x in c["reanno"][1]] if c["reanno"] else None
        want = demo_tree(root, *full, rer, ret)
        for n in full[0] + full[1]:
            raw, thin = demo_want(n, False, 2), demo_want(n, True, 2)
            for s, k in (("edge", "edge"), ("isedge", "isedge")):
                want[n + "_raw_%s.png" % s] = raw[k]
                want[n + "_thin_%s.png" % s] = thin[k]
            for k, s in FS.items():
                want[n + s] = raw[k]
        before = {p for p, _, _ in os.walk(top)}
        inputs = {os.path.join(p, f) for p, _, fs in os.walk(top) for f in fs}
        argv = []
        if c["root"] is not None:
            argv += ["--root", root if c["abs"] else c["root"]]
        if c["out"]:
            argv += ["-o", c["out"]]
        if c["nproc"]:
            argv += ["--nproc", str(c["nproc"])]
        if c["reanno"]:
            argv += ["--reanno"]
        r = script("sbd.py", argv, top)
        tick()
        what = "sbd.py %s (%s)" % (" ".join(argv), c)
        expect(r[0] == "ok", lambda: "%s: %s" % (what, r[1]))
        out = os.path.join(root, c["out"] or "gtEval")
        for n, a in want.items():
            same_png(os.path.join(out, n), a, what)
        expect(set(os.listdir(out)) == set(want), lambda: "%s: also wrote %s" % (what, set(os.listdir(out)) - set(want)))
        new = {os.path.join(p, f) for p, _, fs in os.walk(top) for f in fs} - inputs - {os.path.join(out, n) for n in want}
        if c["reanno"]:
            t = os.path.join(root, "reanno_val.txt")
            expect(t in new and open(t).read().split("\n") == rer + [""], lambda: "%s: reanno_val.txt does not list %s" % (what, rer))
            new -= {t}
        expect(not new, lambda: "%s: also wrote %s" % (what, new))
        return len(want)
    finally:
        shutil.rmtree(top)


def check_large(c):
    """Large annotations with many instances in a grid."""
    h, w = c["shape"]
    gy, gx = c["grid"]
    yy, xx = np.mgrid[:h, :w]
    cell_ = (yy * gy // h) * gx + xx * gx // w
    n = gy * gx
    m = np.where((cell_ * 7 + c["k"]) % 5 == 0, 0, cell_ + 1)
    if c["k"] % 2:
        m = m.T.copy()
    cats = [(i * 7 + c["k"]) % 20 + 1 if c["many"] else [3, 20][i % 2] for i in range(n)]
    m, cats = compactify(m, cats)
    d = ds.tmpdir()
    try:
        write(d, "2008_000001", m, cats, noise=c["k"])
        out = os.path.join(d, "out")
        os.makedirs(out)
        sig = []
        for thin, radius in ((False, 2), (True, 1), (False, 3)):
            W = wanted(m, cats, radius, thin)
            convert(d, out, "2008_000001", radius, thin, True)
            verify(out, "2008_000001", W, "%s radius=%d thin=%s" % (c, radius, thin), True)
            sig.append(int(W["sens"].sum()))
        return tuple(sig)
    finally:
        shutil.rmtree(d)


def build(tier):
    big = tier == "thorough"
    import pyEdgeEval.helpers.convert_sbd  # noqa
    sc = []
    sc.append(product_scope("annotations_2x3", [("shape", [(2, 3)]), ("rot", range(4) if big else [0]), ("code", range(0, 5 ** 6, 2 if big else 6))], check,
                            note="instance maps of a 2x3 interior over background, two instances of one category and one of two others; four kinds of border"))
    sc.append(product_scope("annotations_wide", [("shape", [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]), ("rot", range(12)), ("code", range(0, 625, 1 if big else 13))], check, note="other interior sizes (codes beyond the size repeat)"))
    lists = [[]] + [[c] for c in range(1, 21)] + [list(x) for n in (2, 3) for x in itertools.product([1, 9, 10, 20], repeat=n)] + [[5] * 11, [20] * 12, [1, 2] * 6, list(range(1, 21)), list(range(20, 0, -1))]
    sc.append(product_scope("instance_ids", [("cats", lists), ("dt", [np.uint8, np.uint16])], check_ids, note="every category, all lists of up to 3 instances over 4 categories, up to 20 instances"))
    bits = [0, 1, 0b100000000000, 0b101, 0b111111111111, 0b10110, 0b11000011, 999]
    sc.append(product_scope("reannotated", [("cats", [[7, 20], [1, 2], [20, 3]] + [[c, c % 20 + 1] for c in (range(1, 21) if big else (8, 9, 16, 17, 19))]), ("icats", [None]), ("cls", range(0, 4096, 5) if big else bits + [4095, 1234]), ("inst", bits)], check_reanno, note="category and instance boundaries"))
    sc.append(product_scope("reannotated_one", [("cats", [[c] for c in range(1, 21)] + [[]]), ("icats", [None]), ("cls", [0b1011, 0]), ("inst", [0b1101])], check_reanno, note="one category or none"))
    ops = [(n, t, r) for n in "abe" for t, r in ((False, 2), (True, 2), (False, 1))]
    sc.append(list_scope("histories", [dict(ops=list(s)) for n in ((1, 2, 3) if big else (1, 2)) for s in itertools.product(ops, repeat=n)] + ([] if big else [dict(ops=list(s)) for s in itertools.product([o for o in ops if o[2] == 2 and o[0] != "e"], repeat=3)]),
                         check_history, note="all sequences of conversions sharing a process"))
    scr = []
    for root, ab in ((None, 0), ("r", 0), ("x y/sbd.v1", 1)):
        for tr, va in (("a", "b"), ("ae", "b"), ("b", "aec"), ("abc", "e")):
            for nproc in (1, 2, None, 3):
                for re in (None, ("a", "a"), ("ba", "ab"), ("cb", "abc")):
                    for out in (None, "gt Eval"):
                        scr.append(dict(root=root, abs=ab, train=tr, val=va, nproc=nproc, reanno=re, out=out))
    sc.append(list_scope("script", scr if big else scr[::5], check_script, timeout=250, note="scripts/convert_datasets/sbd.py over trees, worker counts, options"))
    sc.append(product_scope("annotations_large", [("shape", [(40, 70), (24, 300)] + ([(300, 280)] if big else [])), ("grid", [(2, 3), (4, 8), (3, 40)]), ("k", range(3)), ("many", [False, True])], check_large, note="large annotations with up to 96 instances", timeout=600))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="the conversion functions and the conversion script run on annotations written to disk; every file they write is decoded and compared with brute-force boundaries of the annotation",
                    assumptions=["thinning itself is decided by P06", "annotation files follow the SBD field order", "images are larger than the ignored border"])
