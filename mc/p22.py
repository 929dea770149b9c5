"""P22: Cityscapes conversion."""
import itertools, json, os, runpy, shutil, sys
import numpy as np
from PIL import Image
from core import product_scope, list_scope, expect, tick, in_child
import core
import dsgen as ds
from p09 import digits, edges
from p18 import TRAIN2LABEL

LABELS = list(range(34))
# pixel states: (label id, instance id)
S = [(0, 0), (7, 7), (26, 26000), (2, 2), (26, 26001), (24, 24000), (3, 3), (26, 26), (33, 33012), (11, 11)]


def cv_nearest(stack, hw):
    h, w = stack.shape[1:]
    iy = np.minimum((np.arange(hw[0]) * (h / hw[0])).astype(int), h - 1)
    ix = np.minimum((np.arange(hw[1]) * (w / hw[1])).astype(int), w - 1)
    return stack[:, iy][:, :, ix]


def wanted(lab, inst, sens, radius, thin, scale, seal):
    """Edge stack over the 19 train ids."""
    early = scale < 1 and (thin or not seal)
    if early:
        hw = ds.scaled(lab.shape, scale)
        lab, inst = ds.nearest(lab, hw), ds.nearest(inst, hw)
    e = edges(lab, LABELS, [2, 3], radius, thin, inst=inst if sens else None)[TRAIN2LABEL]
    if scale < 1 and not early:
        e = cv_nearest(e, ds.scaled(lab.shape, scale))
    return e


def code(stack):
    v = np.zeros(stack.shape[1:], np.int64)
    for k in range(len(stack)):
        v |= stack[k].astype(np.int64) << k
    return v


def read(path, ext, hw):
    if ext == "png":
        a = np.array(Image.open(path)).astype(np.int64)
        expect(a.ndim == 3 and a.shape[2] == 3, lambda: "%s is not an RGB image" % path)
        return (a[..., 0] << 16) + (a[..., 1] << 8) + a[..., 2]
    if ext == "tif":
        return np.array(Image.open(path)).astype(np.int64)
    a = np.fromfile(path, dtype="<u4").astype(np.int64)
    expect(a.size == hw[0] * hw[1], lambda: "%s holds %d values, expected %dx%d" % (path, a.size, *hw))
    return a.reshape(hw)


def same(path, ext, e, what):
    expect(os.path.isfile(path), lambda: "%s: %s was not written" % (what, path))
    got = read(path, ext, e.shape[1:])
    want = code(e)
    expect(got.shape == want.shape and np.array_equal(got, want), lambda: "%s: %s holds\n%s\nexpected\n%s" % (what, os.path.basename(path), got, want))


def put_maps(d, name, lab, inst):
    ds.put(os.path.join(d, name + "_gtFine_labelIds.png"), lab.astype(np.uint8))
    ds.put(os.path.join(d, name + "_gtFine_instanceIds.png"), inst.astype(np.uint16))


def maps(code_, h, w, states, kron=(1, 1)):
    px = [states[d] for d in digits(code_, h * w, len(states))]
    lab = np.array([p[0] for p in px], dtype=int).reshape(h, w)
    inst = np.array([p[1] for p in px], dtype=int).reshape(h, w)
    return np.kron(lab, np.ones(kron, int)), np.kron(inst, np.ones(kron, int))


OPT = [dict(inst_sensitive=i, thin=t, scale=s, seal=se, radius=1 if t else r, ext=x) for i, t, s, se, r, x in itertools.product([True, False], [False, True], [1.0, 0.5, 0.75], [True, False], [2, 1, 3], ["png", "tif", "bin"])]


def check(c):
    from pyEdgeEval.helpers.convert_cityscapes import convert_label_to_semantic_edges
    lab, inst = maps(c["code"], *c["shape"], c["states"], c["kron"])
    top = ds.tmpdir()
    try:
        src = os.path.join(top, "gtFine", "val", "aachen")
        os.makedirs(src)
        put_maps(src, "aachen_1", lab, inst)
        before = sorted(os.listdir(src))
        sig = []
        for k in range(c["per"]):
            o = OPT[(c["code"] * 7 + k * 53 + c["rot"]) % len(OPT)]
            kw = {a: b for a, b in o.items() if a != "ext"}
            convert_label_to_semantic_edges(os.path.join(src, "aachen_1_gtFine_labelIds.png"), proc_dir="gtOut%d" % k, edge_suffix="_gtProc_e.%s" % o["ext"], **kw)
            tick()
            e = wanted(lab, inst, o["inst_sensitive"], o["radius"], o["thin"], o["scale"], o["seal"])
            what = "%s\nlabels\n%s\ninstances\n%s" % (o, lab, inst)
            out = os.path.join(top, "gtOut%d" % k, "val", "aachen")
            same(os.path.join(out, "aachen_1_gtProc_e." + o["ext"]), o["ext"], e, what)
            expect(os.listdir(out) == ["aachen_1_gtProc_e." + o["ext"]], lambda: "%s: wrote %s" % (what, os.listdir(out)))
            sig.append(int(e.sum()))
        expect(sorted(os.listdir(top)) == sorted(["gtFine"] + ["gtOut%d" % k for k in range(c["per"])]) and sorted(os.listdir(src)) == before, lambda: "wrote %s, %s" % (os.listdir(top), os.listdir(src)))
        return tuple(sig)
    finally:
        shutil.rmtree(top)


def check_large(c):
    """Large maps with many instances in a grid."""
    from pyEdgeEval.helpers.convert_cityscapes import convert_label_to_semantic_edges
    h, w = c["shape"]
    gy, gx = c["grid"]
    yy, xx = np.mgrid[:h, :w]
    cell = (yy * gy // h) * gx + xx * gx // w
    lab = np.array([26, 24, 7, 26, 2, 33, 24])[(cell * 3 + c["k"]) % 7]
    inst = np.where(lab >= 24, lab * 1000 + cell * c["step"], lab)
    top = ds.tmpdir()
    try:
        src = os.path.join(top, "gtFine", "val", "aachen")
        os.makedirs(src)
        put_maps(src, "aachen_1", lab, inst)
        sig = []
        for k, o in enumerate(OPT[c["k"] % 4::67]):
            kw = {a: b for a, b in o.items() if a != "ext"}
            convert_label_to_semantic_edges(os.path.join(src, "aachen_1_gtFine_labelIds.png"), proc_dir="o", edge_suffix="_%d.%s" % (k, o["ext"]), **kw)
            tick()
            e = wanted(lab, inst, o["inst_sensitive"], o["radius"], o["thin"], o["scale"], o["seal"])
            same(os.path.join(top, "o", "val", "aachen", "aachen_1_%d.%s" % (k, o["ext"])), o["ext"], e, "%s %s" % (c, o))
            sig.append(int(e.sum()))
        return tuple(sig)
    finally:
        shutil.rmtree(top)


def check_label(c):
    """One region per label: every label id, with and without instances, reaches its own class or none."""
    from pyEdgeEval.helpers.convert_cityscapes import convert_label_to_semantic_edges
    l = c["label"]
    lab = np.full((6, 9), c["rest"])
    inst = lab.copy()
    lab[1:5, 2:7] = l
    inst[1:5, 2:7] = l
    if 24 <= l and c["inst"]:
        inst[1:5, 2:4] = l * 1000
        inst[1:5, 4:7] = l * 1000 + c["inst"]
    top = ds.tmpdir()
    try:
        src = os.path.join(top, "gtFine", "train", "x")
        os.makedirs(src)
        put_maps(src, "i", lab, inst)
        n = []
        for sens in (True, False):
            for ext in ("png", "tif", "bin"):
                convert_label_to_semantic_edges(os.path.join(src, "i_gtFine_labelIds.png"), inst_sensitive=sens, proc_dir="o", edge_suffix="_%d.%s" % (sens, ext), radius=1)
                tick()
                e = wanted(lab, inst, sens, 1, False, 1.0, True)
                same(os.path.join(top, "o", "train", "x", "i_%d.%s" % (sens, ext)), ext, e, "label %d instances %s sensitive=%s" % (l, c["inst"], sens))
                n.append(int(e.sum()))
        return tuple(n)
    finally:
        shutil.rmtree(top)


# ------------------------------------------------------------ trees
TRAINID = dict(road=0, sidewalk=1, building=2, sky=10, person=11, car=13, cargroup=13, static=255, bicycle=18)
POLYS = {0: [("road", 0, 0, 7, 3), ("car", 2, 1, 4, 2)], 1: [("building", 0, 0, 3, 5), ("person", 1, 1, 2, 4), ("static", 5, 0, 6, 1)], 2: [], 3: [("sky", 0, 0, 7, 5), ("bicycle", 3, 3, 6, 5), ("cargroup", 0, 4, 1, 5), ("sidewalk", 6, 0, 7, 0)]}


def write_poly(path, k):
    objs = [dict(label=l, polygon=[[x0, y0], [x1, y0], [x1, y1], [x0, y1]]) for l, x0, y0, x1, y1 in POLYS[k]]
    ds.put(path, text=json.dumps(dict(imgHeight=6, imgWidth=8, objects=objs)))
    m = np.full((6, 8), 255)
    for l, x0, y0, x1, y1 in POLYS[k]:
        m[y0:y1 + 1, x0:x1 + 1] = TRAINID[l]
    return m


MAP = {}


def image(k):
    if k not in MAP:
        MAP[k] = maps(982451653 * (k + 3) % 10 ** 6 + 3 * 10 ** 5, 2, 3, S, (3, 3) if k % 2 else (3, 2))
    return MAP[k]


WANT = {}


def want(k, sens, radius, thin, half):
    key = k, sens, radius, thin, half
    if key not in WANT:
        WANT[key] = wanted(*image(k), sens, radius, thin, 0.5 if half else 1.0, True)
    return WANT[key]


def tree(root, splits):
    """splits: split -> list of (city, image number)"""
    out = {}
    for sp in ("train", "val", "test"):
        os.makedirs(os.path.join(root, "gtFine", sp), exist_ok=True)
        for city, k, *part in splits.get(sp, ()):
            d = os.path.join(root, "gtFine", sp, city)
            n = "%s_00000%d%s_%s" % (city, k, "".join(part[:1]), (part + ["", "000019"])[1] if len(part) > 1 else "000019")
            m = write_poly(os.path.join(d, n + "_gtFine_polygons.json"), k % 4)
            put_maps(d, n, *image(k))
            ds.put(os.path.join(d, n + "_gtFine_color.png"), np.zeros((2, 2, 4), np.uint8))
            out[sp, city, n] = k, m
    return out


def expected_files(proc, items, sens, ext, half, radii=(2, 2, 1)):
    E, T = {}, {}
    t = "isedge" if sens else "edge"
    for (sp, city, n), (k, m) in items.items():
        if sp == "test":
            continue
        b = os.path.join(proc, sp, city, n)
        T[b + "_gtFine_labelTrainIds.png"] = m
        if sp == "train":
            E["%s_gtProc_%s.%s" % (b, t, ext)] = want(k, sens, radii[0], False, False)
        else:
            E["%s_gtProc_raw_%s.%s" % (b, t, ext)] = want(k, sens, radii[1], False, False)
            E["%s_gtProc_thin_%s.%s" % (b, t, ext)] = want(k, sens, radii[2], True, False)
            if half:
                E["%s_gtProc_half_raw_%s.%s" % (b, t, ext)] = want(k, sens, radii[1], False, True)
                E["%s_gtProc_half_thin_%s.%s" % (b, t, ext)] = want(k, sens, radii[2], True, True)
    return E, T


def verify_tree(root, proc, items, sens, ext, half, before, top, what, radii=(2, 2, 1)):
    E, T = expected_files(os.path.join(root, proc), items, sens, ext, half, radii)
    for p, e in E.items():
        same(p, ext, e, what)
    for p, m in T.items():
        expect(os.path.isfile(p), lambda: "%s: %s was not written" % (what, p))
        got = np.array(Image.open(p)).astype(int)
        expect(np.array_equal(got, m), lambda: "%s: %s holds\n%s\nexpected\n%s" % (what, p, got, m))
    L = set()
    for sp in ("train", "val", "test"):
        p = os.path.join(root, "splits", sp + ".txt")
        L.add(p)
        expect(os.path.isfile(p), lambda: "%s: no split list %s" % (what, sp))
        lines = open(p).read().split("\n")
        expect(lines[-1] == "" and sorted(lines[:-1]) == sorted("%s/%s" % (c, n) for s, c, n in items if s == sp), lambda: "%s: %s.txt lists %s" % (what, sp, lines))
    now = {os.path.join(p, f): open(os.path.join(p, f), "rb").read() for p, _, fs in os.walk(top) for f in fs}
    extra = set(now) - set(before) - set(E) - set(T) - L
    expect(not extra, lambda: "%s: also wrote %s" % (what, sorted(extra)[:5]))
    expect(all(now.get(p) == b for p, b in before.items() if p not in E and p not in T and p not in L), lambda: "%s: changed its inputs" % what)
    return len(E) + len(T)


def files(top):
    return {os.path.join(p, f): open(os.path.join(p, f), "rb").read() for p, _, fs in os.walk(top) for f in fs}


TREES = [dict(train=[("aachen", 0)], val=[("bonn", 1)]),
         dict(train=[("aachen", 0), ("aachen", 1), ("bonn", 2)], val=[("bonn", 3), ("ulm", 4)], test=[("berlin", 5), ("berlin", 6)]),
         dict(train=[], val=[("ulm", 7), ("ulm", 8)], test=[("ulm", 9)]),
         dict(train=[("ulm", 3, "_gtFine_x")], val=[("aachen", 2), ("bonn", 6, "_gtFine"), ("bonn", 0)]),
         dict(train=[("ulm", 5), ("zurich", 6)], val=[]),
         # names that end (or begin) with characters of the suffixes that are cut off
         dict(train=[("_gtown", 1, "", "polygons"), ("nt", 2, "", "gt")], val=[("onjs.d", 0, "", "json"), ("p", 3, "_", "_"), ("gtf", 4, "", "label.n")], test=[("jena", 5, "", "fine_s")]),
         dict(train=[("c%02d" % (k % 13), k % 10) for k in range(26)], val=[("v%d" % (k % 3), k % 9) for k in range(12) if k != 9], test=[("t", k) for k in range(11)])]
ROOTS = ["city", "gtFine_trainvaltest", "x y/gtFine/data.v1"]


def check_tree(c):
    def go():
        from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
        os.chdir(top)
        if c["script"]:
            argv = ["--root", root if c["abs"] else c["root"], "-o", c["proc"], "--ext", c["ext"], "--nproc", str(c["nproc"])]
            if not c["inst"]:
                argv += ["--nonIS"]
            if not c["half"]:
                argv += ["--only-full-scale"]
            sys.argv = ["cityscapes.py"] + argv
            runpy.run_path(os.path.join(core.boot(), "scripts", "convert_datasets", "cityscapes.py"), run_name="__main__")
        else:
            convert_cityscapes(proc_dirname=c["proc"], cityscapes_root=root if c["abs"] else c["root"], inst_sensitive=c["inst"], ext=c["ext"], save_half_val=c["half"],
                               train_radius=c["radii"][0], raw_val_radius=c["radii"][1], thin_val_radius=1, nproc=c["nproc"])
    top = ds.tmpdir()
    try:
        root = os.path.join(top, c["root"])
        items = tree(root, TREES[c["tree"]])
        before = files(top)
        r = in_child(go, 200)
        tick()
        expect(r[0] == "ok", lambda: "%s: %s" % (c, r[1]))
        n = verify_tree(root, c["proc"], items, c["inst"], c["ext"], c["half"], before, top, str(c), (2, 2, 1) if c["script"] else c["radii"])
        return n, c["tree"]
    finally:
        shutil.rmtree(top)


def check_twice(c):
    """Conversions of one tree in a row, in one process: each adds exactly its own files."""
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    top = ds.tmpdir()
    try:
        root = os.path.join(top, "city")
        items = tree(root, TREES[3])
        for inst, ext, half, proc, radii in c["ops"]:
            before = files(top)
            r = convert_cityscapes(proc_dirname=proc, cityscapes_root=root, inst_sensitive=inst, ext=ext, save_half_val=half, train_radius=radii[0], raw_val_radius=radii[1], thin_val_radius=1, nproc=1)
            tick()
            verify_tree(root, proc, items, inst, ext, half, before, top, "after %s" % (c["ops"],), radii)
        return len(c["ops"])
    finally:
        shutil.rmtree(top)


def check_compare(c):
    """The comparison mode reports exactly the files that differ."""
    from pyEdgeEval.helpers.convert_cityscapes import test_against_matlab
    import contextlib, io, re
    top = ds.tmpdir()
    try:
        root = os.path.join(top, c["root"])
        want, far = dict(train=0, val=0), []
        i = 0
        for sp, suf in (("train", "_gtProc_edge.png"), ("val", "_gtProc_raw_edge.png")):
            os.makedirs(os.path.join(root, "gtProc", sp))
            for city, n, *_ in c["tree"][sp]:
                e = ds.rgb(image(n)[0][None] % 3 == 0)
                f = e.copy()
                k = c["diff"][i % len(c["diff"])]
                # differing pixels: one channel, or several by amounts that cancel modulo 256
                px = f.reshape(-1, 3)
                px[:k] ^= np.array([[16, 0, 0], [0, 128, 128], [0, 0, 1], [128, 0, 128]][(k + i) % 4], np.uint8)
                i += 1
                b = os.path.join(sp, city, "%s_%d" % (city, n))
                ds.put(os.path.join(root, "gtProc", b + "_gtProc_edge.png"), e)
                ds.put(os.path.join(root, c["proc"], b + suf), f)
                want[sp] += k > 0
                n_diff = int((e != f).sum())        # the listing counts differing channel values
                if n_diff > 3:
                    far.append("%s_%d" % (city, n))
        before = files(top)
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            test_against_matlab(proc_dirname=c["proc"], cityscapes_root=root, inst_sensitive=False, nproc=c["nproc"])
        tick()
        text = o.getvalue()
        for sp in want:
            m = re.findall(r"\[%s\][^\n]*?(\d+)\s*$" % sp, text, re.M)
            expect(m == [str(want[sp])], lambda: "%s: reports %s missed in %s, expected %d\n%s" % (c, m, sp, want[sp], text))
        for sp in ("train", "val"):
            for city, n, *_ in c["tree"][sp]:
                k = "%s_%d" % (city, n)
                expect((k + "_gtProc" in text) == (k in far), lambda: "%s: listed files\n%s\nexpected %s" % (c, text, far))
        expect(files(top) == before, "the comparison changed files")
        return want["train"], want["val"], len(far)
    finally:
        shutil.rmtree(top)


def check_reject(c):
    from pyEdgeEval.helpers import convert_cityscapes as M
    top = ds.tmpdir()
    try:
        root = os.path.join(top, "city")
        items = tree(root, TREES[0])
        before = files(top)
        try:
            if c["what"] == "ext":
                M.convert_cityscapes(proc_dirname="o", cityscapes_root=root, ext=c["v"], nproc=1)
            elif c["what"] == "root":
                M.convert_cityscapes(proc_dirname="o", cityscapes_root=root + c["v"], nproc=1)
            elif c["what"] == "proc":
                M.convert_cityscapes(proc_dirname=c["v"], cityscapes_root=root, nproc=1)
            elif c["what"] == "thin":
                M.convert_label_to_semantic_edges(os.path.join(root, "gtFine/train/aachen/%s_gtFine_labelIds.png" % "aachen_000000_000019"), thin=True, radius=c["v"])
            elif c["what"] == "format":
                M.convert_label_to_semantic_edges(os.path.join(root, "gtFine/train/aachen/%s_gtFine_labelIds.png" % "aachen_000000_000019"), edge_suffix="_e" + c["v"])
        except Exception:
            expect(files(top) == before, lambda: "%s: rejected, but files changed: %s" % (c, set(files(top)) ^ set(before)))
            return "rejected"
        expect(False, lambda: "%s was accepted" % c)
    finally:
        shutil.rmtree(top)


def build(tier):
    big = tier == "thorough"
    import pyEdgeEval.helpers.convert_cityscapes  # noqa
    sc = []
    n = 10 ** 6
    sc.append(product_scope("one_image", [("states", [S]), ("rot", range(2) if big else [0]), ("shape", [(2, 3), (3, 2)]), ("kron", [(1, 1), (2, 2), (2, 3)]), ("per", [8]), ("code", range(0, n, 307 if big else 1709))], check,
                            note="label and instance maps over 10 pixel states (every 1709th code when quick), each converted with 8 of the 432 option combinations"))
    sc.append(product_scope("options", [("states", [S]), ("rot", range(0, len(OPT), 9)), ("shape", [(2, 3)]), ("kron", [(3, 3)]), ("per", [9]), ("code", [123456, 908172, 524242, 777013])], check, note="maps under all option combinations"))
    odd = [(1, 1), (1, 2), (2, 1), (1, 5), (5, 1), (3, 3)]
    sc.append(product_scope("odd_sizes", [("states", [S]), ("rot", range(0, len(OPT), 27)), ("shape", odd), ("kron", [(1, 1)]), ("per", [9]), ("code", [0, 24351, 91827, 700021] if not big else range(0, 10 ** 6, 49999))], check, note="sizes down to one pixel"))
    sc.append(product_scope("labels", [("rest", [0, 7, 23]), ("inst", [0, 1, 999]), ("label", range(34))], check_label, note="every label id"))
    tr = []
    for i, (t, root, inst, half, nproc, ext, script) in enumerate(itertools.product(range(len(TREES)), ROOTS, [True, False], [True, False], [1, 2, 3], ["png", "tif", "bin"], [True, False])):
        tr.append(dict(tree=t, root=root, abs=i % 2, inst=inst, half=half, nproc=nproc, ext=ext, script=script, proc=["gtEval", "out/gtX", "gt Fine", "gtFine2"][i % 4], radii=[(2, 2, 1), (1, 3, 1), (3, 1, 1)][i // 2 % 3]))
    sc.append(list_scope("trees", tr if big else tr[::7], check_tree, timeout=250, note="trees x roots x sensitivity x scales x worker counts x formats, by function or script (every 7th when quick)"))
    ops = [(True, "png", True, "a", (2, 2, 1)), (False, "png", False, "a", (2, 2, 1)), (True, "bin", False, "b", (2, 2, 1)), (False, "tif", True, "b", (2, 2, 1)), (True, "png", True, "a", (1, 3, 1)), (False, "tif", False, "b", (3, 1, 1))]
    sc.append(list_scope("histories", [dict(ops=list(s)) for k in ((1, 2, 3, 4) if big else (1, 2, 3)) for s in itertools.product(ops, repeat=k)], check_twice, note="sequences of conversions in one process"))
    diffs = [list(x) for k in (1, 2, 3) for x in itertools.product((0, 1, 3, 4, 6), repeat=k)]
    cmpt = [dict(tree=TREES[t], diff=d, nproc=1 if i % 7 else 2, root=["city", "gt", "gtProc_data/city"][i % 3], proc=["gtEval", "gtOut"][i // 5 % 2]) for i, (t, d) in enumerate(itertools.product((0, 1, 2, 3), diffs))]
    sc.append(list_scope("comparison", cmpt if big else cmpt[::4], check_compare, note="conversion output compared with reference edges: every pattern of 0, 1, 3, 4, 6 differing pixels over up to 3 files"))
    sc.append(product_scope("large", [("shape", [(40, 70), (24, 300), (300, 26)] + ([(256, 512)] if big else [])), ("grid", [(2, 3), (4, 8), (1, 40)]), ("step", [1, 7]), ("k", range(4))], check_large, note="large maps with up to 40 instances", timeout=600))
    rej = [dict(what="ext", v=v) for v in ("jpg", "", ".png", "PNG")] + [dict(what="root", v="/nope")] + [dict(what="proc", v="")] + [dict(what="thin", v=v) for v in (2, 3, 0)] + [dict(what="format", v=v) for v in (".jpg", "", ".npy")]
    rej = [r for r in rej if r["what"] in ("thin", "proc", "format")]
    sc.append(list_scope("rejected", rej, check_reject, note="thinning with another radius, unknown formats and an empty output name are refused before anything is written"))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="the conversion functions and script run on trees written to disk; every file is decoded and compared with brute-force boundaries of the label and instance maps",
                    assumptions=["thinning itself is decided by P06", "nearest-neighbour sampling as documented by Pillow (masks) and OpenCV (edges)", "polygons are drawn by cityscapesscripts"])
