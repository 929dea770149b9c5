"""P20: history independence, inputs unmodified."""
import copy, itertools, os, shutil, traceback
import contextlib, hashlib, io
import numpy as np
from PIL import Image
from core import Scope, list_scope, expect, tick, in_child, NoAnswer, Rng, _silence
import dsgen as ds, evenv as ev, p16, p17
from models import bits

# ------------------------------------------------------------------ inputs: three variants, A and B of one shape
SH = dict(A=(7, 8), B=(7, 8), C=(9, 6))
K = 4


def hashmap(v, salt, shape, n):
    """Fixed pattern of values below n."""
    y, x = np.mgrid[:shape[0], :shape[1]]
    k = "ABC".index(v) + 1
    return ((y * 7919 + x * 104729 + salt * 15485863 + k * 32452843 + (y * x + k) * (y + 3 * x + salt) * 1299709) >> 3) % n


def build_ctx(v):
    s = SH[v]
    lab = np.repeat(np.repeat(hashmap(v, 1, ((s[0] + 2) // 3, (s[1] + 2) // 3), K), 3, 0), 3, 1)[:s[0], :s[1]].astype(np.uint8)
    sub = (np.add.outer(np.arange(s[0]) // 2, np.arange(s[1]) // 3) + "ABC".index(v)) % 2
    c = dict(
        pred=hashmap(v, 2, s, 11) / dict(A=10.0, B=10.0, C=7.0)[v],
        pred32=(hashmap(v, 3, s, 11) / 10.0).astype(np.float32),
        pred8=(hashmap(v, 4, s, 6) * 51).astype(np.uint8),
        mask=hashmap(v, 5, s, 2).astype(bool), mask8=hashmap(v, 6, s, 2).astype(np.uint8),
        gt=hashmap(v, 7, s, 3) == 0, seg=hashmap(v, 8, s, 2).astype(bool),
        gts=[hashmap(v, 9 + i, s, 3) == 0 for i in range(3)],
        thr=np.array(dict(A=[0.2, 0.5, 0.9], B=[0.1, 0.55, 0.7], C=[0.3, 0.4, 0.6])[v]),
        orient=hashmap(v, 13, s, 7) * 0.45,
        lab=lab, onehot=np.array([lab == i for i in range(K)]).astype(np.uint8),
        inst=np.where((lab == 1) | (lab == 3), lab.astype(int) * 1000 + sub, lab).astype(np.int32),
        stack=np.array([hashmap(v, 20 + i, s, 2) for i in range(10)]).astype(np.uint8),
        l2t=dict(A={1: 0, 3: 1}, B={0: 1, 2: 0}, C={3: 0, 1: 2, 0: 1})[v],
        ignore=dict(A=[2], B=[2, 0], C=[])[v], labels=dict(A=[0, 1, 2, 3], B=[0, 2, 1, 3], C=[3, 1, 2, 0])[v], ilabels=dict(A=[1, 3], B=[3, 1], C=[1, 3])[v],
        nms=dict(r=dict(A=1, B=2, C=1)[v], s=dict(A=5, B=0, C=2)[v], m=1.01, half_prec=False),
        code=hashmap(v, 90, s, 1023).astype(np.int32), thrs=dict(A=[0.25, 0.75], B=[0.9, 0.1, 0.5], C=[0.5])[v],
        iseg=(hashmap(v, 31, s, 4)).astype(np.uint8), icats=np.array(dict(A=[3, 3, 1], B=[1, 3, 3], C=[2, 2, 2])[v], np.uint8), present=np.array(dict(A=[1, 3], B=[1, 3], C=[2])[v], np.uint8),
        samples=[dict(name="%s%d" % (v if v != "B" else "A", i), category=1) for i in range(2)],
        counts=[[np.array(x, float) for x in ([2, 1, 0 + i], [3, 3, 3], [2, 1, i], [4, 2 + "ABC".index(v), 1])] for i in range(2)])
    return c


PREDPIX = dict(A=lambda s: hashmap("A", 41, s, 6) * 51, B=lambda s: hashmap("B", 41, s, 6) * 51, C=lambda s: hashmap("C", 41, s, 6) * 51)
FSH = dict(A=(14, 16), B=(14, 16), C=(16, 13))


def write_files(d, v):
    """The same paths, with the content of the variant."""
    s = FSH[v]
    ds.put(os.path.join(d, "p.png"), PREDPIX[v](s).astype(np.uint8))
    e = np.array([hashmap(v, 50 + i, s, 4) == 0 for i in range(20)])
    ds.put(os.path.join(d, "e.png"), ds.rgb(e))
    ds.put(os.path.join(d, "s.png"), hashmap(v, 71, s, 4).astype(np.uint8))
    lab = np.array([0, 7, 26, 3])[hashmap(v, 1, ((s[0] + 3) // 4, (s[1] + 3) // 4), 4)]
    lab = np.kron(lab, np.ones((4, 4), int))[:s[0], :s[1]]
    ds.put(os.path.join(d, "l.png"), lab.astype(np.uint8))
    ds.put(os.path.join(d, "i.png"), np.where(lab == 26, 26000 + np.arange(s[1]) // 2 % 2, lab).astype(np.uint16))
    ds.write_bsds_gt(os.path.join(d, "g.mat"), [hashmap(v, 80 + i, s, 4) == 0 for i in range(2)])


def sample(d, kind):
    if kind == "decode":
        return dict(path=os.path.join(d, "e.png"))
    b = dict(name="x", scale=1.0, max_dist=0.1, thresholds=[0.3, 0.7], apply_thinning=True, apply_nms=False, pred_path=os.path.join(d, "p.png"))
    if kind == "bsds":
        b.update(gt_path=os.path.join(d, "g.mat"))
        return b
    b.update(kill_internal=False, skip_if_nonexistent=False, category=2)
    if kind == "otf":
        b.update(label=26, gt_label_path=os.path.join(d, "l.png"))
        return b
    b.update(num_classes=20 if kind == "sbd" else 19, edge_path=os.path.join(d, "e.png"), seg_path=os.path.join(d, "s.png"))
    return b


# ------------------------------------------------------------------ operations
def ops():
    from pyEdgeEval._lib import correspond_pixels, nms
    from pyEdgeEval.common import binary_label as B, multi_label as M, utils as U, metrics
    from pyEdgeEval.preprocess import binary_thin, bwmorph_thin, fast_nms
    from pyEdgeEval import utils as T, edge_tools as E, datasets as D

    def single(c):
        def f(s, **kw):
            return tuple(a.copy() for a in c["counts"][int(s["name"][-1])])
        return f

    def sizes(m1, m2, *rest):
        return np.asarray(m1) > 0, np.asarray(m2) > 0

    def transform(cls, *extra):
        def f(c):
            t = cls(labelIds=c["labels"], ignore_indices=c["ignore"], label2trainId=c["l2t"], radius=1, **({"inst_labelIds": c["ilabels"]} if extra else {}))
            r = t(c["lab"], *([c["inst"]] if extra else []))
            return dict(r)
        return f
    O = dict(
        match=lambda c: sizes(*correspond_pixels(c["mask"], c["gt"], max_dist=0.15)),
        match_default=lambda c: sizes(*correspond_pixels(c["gt"], c["mask"])),
        ev_binary=lambda c: B.evaluate_boundaries_threshold(c["thr"], c["pred"], c["gt"], max_dist=0.1),
        ev_binary_nms=lambda c: B.evaluate_boundaries_threshold(c["thr"], c["pred"], c["gt"], max_dist=0.1, apply_thinning=False, apply_nms=True),
        ev_binary_opts=lambda c: B.evaluate_boundaries_threshold(c["thr"], c["pred"], c["gt"], max_dist=0.1, apply_nms=True, nms_kwargs=c["nms"]),
        ev_multi_gt=lambda c: B.evaluate_boundaries_threshold_multiple_gts(c["thr"], c["pred"], c["gts"], max_dist=0.1, apply_nms=True),
        ev_label=lambda c: M.evaluate_boundaries_threshold(c["thr"], c["pred"], c["gt"], max_dist=0.1, apply_thinning=False),
        ev_label_seal=lambda c: M.evaluate_boundaries_threshold(c["thr"], c["pred"], c["gt"], c["seg"], max_dist=0.1, kill_internal=True, skip_if_nonexistent=True),
        ev_label_nms=lambda c: M.evaluate_boundaries_threshold(c["thr"], c["pred"], c["gt"], max_dist=0.1, apply_nms=True),
        ev_label_opts=lambda c: M.evaluate_boundaries_threshold(c["thr"], c["pred"], c["gt"], max_dist=0.1, apply_nms=True, nms_kwargs=c["nms"]),
        ev_binary_32=lambda c: B.evaluate_boundaries_threshold(c["thr"], c["pred32"], c["gt"], max_dist=0.1, apply_nms=True, nms_kwargs=c["nms"]),
        ev_binary_d32=lambda c: B.evaluate_boundaries_threshold(c["thr"], c["pred32"], c["gt"], max_dist=0.1, apply_nms=True),
        ev_multi_32=lambda c: B.evaluate_boundaries_threshold_multiple_gts(c["thr"], c["pred32"], c["gts"], max_dist=0.1, apply_nms=True, nms_kwargs=c["nms"]),
        ev_label_32=lambda c: M.evaluate_boundaries_threshold(c["thr"], c["pred32"], c["gt"], c["seg"], max_dist=0.1, kill_internal=True, apply_nms=True, nms_kwargs=c["nms"]),
        ev_label_d32=lambda c: M.evaluate_boundaries_threshold(c["thr"], c["pred32"], c["gt"], max_dist=0.1, apply_nms=True),
        metrics_binary=lambda c: B.calculate_metrics(single(c), c["thrs"] if len(c["thrs"]) == 3 else c["thr"], c["samples"], nproc=1),
        metrics_label=lambda c: M.calculate_metrics(single(c), c["thr"], c["samples"], nproc=1),
        scores=lambda c: metrics.compute_rec_prec_f1(*c["counts"][0]),
        thin=lambda c: binary_thin(c["mask8"]), thin_bool=lambda c: binary_thin(c["mask"]),
        bwmorph=lambda c: bwmorph_thin(c["mask8"]), bwmorph_1=lambda c: bwmorph_thin(c["mask"], 1),
        fast_nms=lambda c: fast_nms(c["pred"]), fast_nms32=lambda c: fast_nms(c["pred32"], **c["nms"]), fast_nms8=lambda c: fast_nms(c["pred8"], r=2, return_as_uint8=True),
        nms=lambda c: nms(c["pred"], c["orient"], r=1, s=2, m=1.01),
        bdry=lambda c: T.mask2bdry(mask=c["mask8"], ignore_mask=c["onehot"][0], radius=2, use_cv2=True, quality=0),
        bdry_scipy=lambda c: T.mask2bdry(mask=c["mask8"], ignore_mask=c["onehot"][0], radius=2, use_cv2=False, quality=0),
        edges=lambda c: E.loop_mask2edge(mask=c["onehot"], ignore_indices=c["ignore"], radius=1),
        edges_thin=lambda c: E.loop_mask2edge(mask=c["onehot"], ignore_indices=c["ignore"], radius=2, thin=True),
        edges_inst=lambda c: E.loop_instance_mask2edge(mask=c["onehot"], inst_mask=c["inst"], inst_labelIds=c["ilabels"], ignore_indices=c["ignore"], radius=1),
        transform=transform(E.Mask2Edge), transform_inst=transform(E.InstanceMask2Edge, 1),
        encode=lambda c: M.default_multilabel_encoding(c["stack"]), encode_rgb=lambda c: M.rgb_multilabel_encoding(c["stack"]),
        encode_one=lambda c: T.edge_onehot2multilabel(c["stack"]), collapse=lambda c: T.edge_multilabel2binary(c["stack"]),
        decode=lambda c: M.decode_png(Image.fromarray(ds.rgb(c["stack"])), 10), decode_tif=lambda c: M.decode_tif(c["code"], 10),
        file_decode=lambda c: M.decode_png(M.load_scaled_edge(c["file_decode"]["path"], 0.5)[0], 20),
        onehot=lambda c: T.mask2onehot(c["lab"], labels=c["labels"]),
        train_mask=lambda c: T.mask_label2trainId(c["lab"], label2trainId=c["l2t"]), train_edge=lambda c: T.edge_label2trainId(c["onehot"], label2trainId=c["l2t"]),
        inst_ids=lambda c: M.convert_inst_seg(c["iseg"], c["icats"], c["present"]),
        thresholds=lambda c: U.check_thresholds(c["thrs"]), thresholds_int=lambda c: U.check_thresholds(len(c["thrs"]) + 2),
        file_sbd=lambda c: D.sbd_eval_single(c["file_sbd"]), file_city=lambda c: D.cityscapes_eval_single(c["file_city"]), file_bsds=lambda c: D.bsds_eval_single(c["file_bsds"]),
    )
    return O


RNG = [None]


def mp_ops():
    from pyEdgeEval import edge_tools as E
    return dict(mp=lambda c: E.mp_mask2edge(mask=c["onehot"], ignore_indices=c["ignore"], radius=1, nproc=2),
                mp_inst=lambda c: E.mp_instance_mask2edge(mask=c["onehot"], inst_mask=c["inst"], inst_labelIds=c["ilabels"], ignore_indices=c["ignore"], radius=1, nproc=2))


def flat(x):
    """A comparable copy."""
    if isinstance(x, np.ndarray):
        return ("a", str(x.dtype), x.shape, x.tobytes() if x.dtype != object else tuple(flat(v) for v in x.ravel()))
    if isinstance(x, dict):
        return ("d", tuple((k, flat(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(flat(v) for v in x))
    if isinstance(x, (np.generic,)):
        return ("v", x.item())
    return ("v", x)


def scribble(x):
    """Overwrites a returned result."""
    if isinstance(x, np.ndarray):
        if x.dtype != object and x.flags.writeable:
            x[...] = np.array(77).astype(x.dtype) if x.dtype != bool else ~x
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            x.clear()


def as_view(a, bases):
    """The array as part of a larger one (whose other cells must stay as they are)."""
    if not isinstance(a, np.ndarray) or a.ndim != 2:
        return a
    big = (np.arange((a.shape[0] + 2) * (2 * a.shape[1] + 1)) % 2).astype(a.dtype).reshape(a.shape[0] + 2, -1)
    w = big[1:-1, 1::2]
    w[...] = a
    bases.append(big)
    return w


def load(objs, v, bases=None):
    """Puts the variant's content into the same objects."""
    new = build_ctx(v)
    if bases is not None:
        new = {k: [as_view(x, bases) for x in n] if k == "gts" else as_view(n, bases) for k, n in new.items()}
    for k, n in new.items():
        o = objs.get(k)
        if isinstance(o, np.ndarray) and o.shape == n.shape and o.dtype == n.dtype:
            o[...] = n
        elif isinstance(o, list) and len(o) == len(n) and all(isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape for a, b in zip(o, n)):
            for a, b in zip(o, n):
                a[...] = b
        elif isinstance(o, dict):
            o.clear()
            o.update(n)
        elif isinstance(o, list):
            o[:] = n
        else:
            objs[k] = n


def play(seq, inplace, table, view=False):
    """Runs the calls; returns the (flattened) results, after checking that inputs stay as they are."""
    d = ds.tmpdir()
    try:
        objs, out, keep = {}, [], []
        bases = [] if view else None
        for name, v, *bad in seq:
            if not inplace:
                keep.append(objs)
                objs = {}
            load(objs, v, bases)
            if bad:
                attempt(name, v, bad[0], bad[1], table, d)
                continue
            if name.startswith("file_"):
                write_files(d, v)
                objs[name] = sample(d, name[5:])
            before, around = flat(objs), flat(bases)
            RNG[0].start(seed=1)
            with contextlib.redirect_stdout(io.StringIO()):
                r = table[name](objs)
            out.append(flat(r))
            after = flat(objs)
            if after != before:
                bad = [a[0] for a, b in zip(after[1], before[1]) if a != b]
                return ("modified", name, v, bad)
            if flat(bases) != around:
                return ("modified", name, v, ["memory around an input"])
            scribble(r)
        return ("results", out)
    finally:
        shutil.rmtree(d)


def broken(x, how):
    """An input that cannot be handled."""
    if how == "none":
        return None
    if how == "text":
        return "nonsense"
    if isinstance(x, np.ndarray):
        return x[..., :-1] if how == "short" else np.zeros((2,) * (x.ndim + 1), x.dtype)
    if isinstance(x, list) and x:
        return x[:-1] + ["?"] if how == "short" else x + [None]
    if isinstance(x, dict) and x:
        k = sorted(x, key=str)
        return {a: ("?" if a == k[-1] else x[a]) for a in k} if how == "short" else {a: x[a] for a in k[1:]}
    return None


def attempt(name, v, key, how, table, d):
    """A call with one unusable input; True when it fails."""
    objs = {}
    load(objs, v)
    if name.startswith("file_"):
        write_files(d, v)
        objs[name] = sample(d, name[5:])
    objs[key] = broken(objs.get(key), how)
    RNG[0].start(seed=1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            table[name](objs)
        return False
    except Exception:
        return True


def failing(name):
    """The unusable inputs an operation refuses."""
    d = ds.tmpdir()
    try:
        keys = list(build_ctx("A")) + ([name] if name.startswith("file_") else [])
        return [(name, v, k, h) for v in "AC" for k in keys for h in ("none", "text", "short", "deep") if attempt(name, v, k, h, TABLE, d)]
    finally:
        shutil.rmtree(d)


BASE = {}


def baseline(letter):
    return BASE[letter]


def check(c):
    seq = c["calls"]
    table = TABLE
    r = in_child(lambda: play(seq, c["same"], table, c.get("view", False)), 60)
    tick(len(seq))
    what = lambda: "calls %s on %s objects" % (seq, "the same" if c["same"] else "new")
    expect(r[0] == "ok", lambda: "%s: %s" % (what(), r[1]))
    expect(r[1][0] == "results", lambda: "%s: %s on input %s modified its inputs %s" % ((what(),) + tuple(r[1][1:])))
    seq = [l for l in seq if len(l) == 2]
    for i, (l, got) in enumerate(zip(seq, r[1][1])):
        expect(got == BASE[tuple(l)], lambda: "%s: call %d returns something else than %s alone in a new process" % (what(), i, l))
    return hashlib.md5(repr(r[1][1]).encode()).hexdigest()


# ------------------------------------------------------------------ two evaluators in one process
CFGS = dict(a=dict(eval_mode="post-seal", scale=1.0), b=dict(eval_mode="pre-seal", instance_sensitive=False, scale=0.5), c=dict(instance_sensitive=False, kill_internal=True, apply_thinning=True, max_dist=0.02, scale=1.0))


def check_two(c):
    """One interleaving of construct, configure, choose samples, evaluate on two evaluators."""
    t = p17.trees()
    E, S, what = [None, None], [None, None], c
    nsamp = [c["samples"][0] or 3, c["samples"][1] or 3]
    step = [0, 0]
    out = []
    for i in c["order"]:
        kind, cfg, thin = c["kinds"][i], dict(CFGS[c["cfgs"][i]]), c["thin"][i]
        k = step[i]
        step[i] += 1
        if kind == "reanno":
            cfg.pop("eval_mode", None), cfg.pop("kill_internal", None)
        cat = 14 if kind == "otf" else [9, 3][i]
        if k == 0:
            E[i] = ev.make(kind, os.path.join(t[kind], "data"), os.path.join(t[kind], "pred"), split=["val", "test"][i], thin=thin)
        elif k == 1:
            S[i] = p17.configure(E[i], kind, cfg, thin)
        elif k == 2:
            if c["samples"][i]:
                names = ev.names(kind, ["val", "test"][i])[:c["samples"][i]]
                given = list(names)
                E[i].set_sample_names(sample_names=given)
                expect(given == names, "set_sample_names changed the list it was given")
            got = E[i].sample_names
            want = ev.names(kind, ["val", "test"][i])[:nsamp[i]]
            expect(got == want, lambda: "%s: samples %s, expected %s" % (c, got, want))
            got.append("junk")
            got[0] = "other"
            p = E[i].eval_params
            p.clear()
        else:
            out.append(p17.evaluate(E[i], kind, ["val", "test"][i], cat, S[i], samples=nsamp[i], what=str(c)))
            out.append(p17.evaluate(E[i], kind, ["val", "test"][i], cat, S[i], samples=nsamp[i], what="again " + str(c)))
        tick()
    return tuple(out)


# ------------------------------------------------------------------ transforms alive at the same time
def tconfs():
    return [dict(radius=1), dict(radius=2), dict(radius=3, use_cv2=False), dict(), dict(radius=1, ignore_indices=[0]), dict(radius=2, ignore_indices=[2], label2trainId={1: 0, 3: 1}),
            dict(label2trainId={0: 1, 2: 0}), dict(radius=1, label2trainId={3: 0, 1: 2, 0: 1}), dict(radius=2, labels=[1, 3]), dict(radius=1, labels=[3, 2, 1, 0], ignore_indices=[3, 1]), dict(radius=1, labels=[1, 3], label2trainId={0: 1, 1: 0})]


def tmake(inst, i):
    from pyEdgeEval import edge_tools as E
    kw = copy.deepcopy(tconfs()[i])
    kw["labelIds"] = kw.pop("labels", [0, 1, 2, 3])
    if inst:
        kw["inst_labelIds"] = [[3, 1], [3], (1,)][i % 3]
    b = flat(kw)
    t = E.InstanceMask2Edge(**kw) if inst else E.Mask2Edge(**kw)
    expect(flat(kw) == b, lambda: "a transform modified the arguments it was made with: %s" % kw)
    return t


def tcall(t, inst, v):
    c = build_ctx(v)
    b = flat((c["lab"], c["inst"]))
    r = t(c["lab"], c["inst"]) if inst else t(c["lab"])
    expect(flat((c["lab"], c["inst"])) == b, "a transform modified its input")
    f = flat(dict(r))
    scribble(dict(r))
    return f


def check_transforms(c):
    """Every interleaving of constructing and calling several transforms."""
    T, out = {}, []
    for k, v in c["order"]:
        inst, i = c["t"][k]
        if v is None:
            T[k] = tmake(inst, i)
            continue
        got = tcall(T[k], inst, v)
        tick()
        expect(got == TBASE[inst, i, v], lambda: "transforms %s, order %s: the call of number %d on %s returns something else than it does alone" % ([(("Mask2Edge", "InstanceMask2Edge")[a], tconfs()[b]) for a, b in c["t"]], c["order"], k, v))
        out.append(hashlib.md5(repr(got).encode()).hexdigest())
    return tuple(out)


TBASE = {}


def merges(a, b):
    if not a or not b:
        return [a + b]
    return [a[:1] + m for m in merges(a[1:], b)] + [b[:1] + m for m in merges(a, b[1:])]


def check_long(c):
    """One long history: every operation on every input, in a rotating order, three times."""
    letters = [l for l in BASE if l[0] in TABLE]
    k = c["step"]
    seq = [letters[(c["start"] + i * k) % len(letters)] for i in range(2 * len(letters))]
    return check(dict(calls=seq, same=c["same"]))


def check_mp(c):
    return check(c)


TABLE = {}


def build(tier):
    big = tier == "thorough"
    RNG[0] = Rng()
    TABLE.update(ops())
    TABLE.update(mp_ops())
    sc_letters, mp_letters = [], []
    try:
        [build_ctx(v) for v in "ABC"]
    except Exception:
        raise NoAnswer(traceback.format_exc())
    todo = [(n, v) for n in TABLE for v in "ABC"]
    res = [in_child(lambda l=l: (_silence(), play([l], False, TABLE))[1], 60) for l in todo]
    from core import Violation
    for l, r in zip(todo, res):
        if r[0] != "ok":
            raise Violation("%s alone: %s" % (l, r[1]))
        if r[1][0] != "results":
            raise Violation("%s on input %s modified its inputs %s" % tuple(r[1][1:]))
        BASE[l] = r[1][1][0]
        (mp_letters if l[0].startswith("mp") else sc_letters).append(l)
    same_as = {}
    pairs = list(itertools.product(sc_letters, repeat=2))
    sc = [list_scope("pairs", [dict(calls=[a, b], same=s) for a, b in pairs for s in (True, False)][::1 if big else 5], check, note="every (quick: every fifth) pair of calls, on the same objects with new content or on new objects")]
    sc.append(list_scope("views", [dict(calls=[(n, v) for v in vs], same=s, view=True) for n in TABLE for vs in (("A",), ("B",), ("C",), ("A", "B"), ("C", "A")) for s in ((True, False) if len(vs) > 1 else (True,))], check, note="inputs that are strided views of larger arrays"))
    # the inputs of one operation in every order
    sc.append(list_scope("one_operation", [dict(calls=[(n, v) for v in vs], same=s) for n in TABLE if not n.startswith("mp") for k in ((3, 4) if big else (3,)) for vs in itertools.product("ABC", repeat=k) for s in (True, False)], check, note="every sequence of three and four inputs of one operation"))
    names = [n for n in TABLE if not n.startswith("mp")]
    fl = []
    for n in names:
        r = in_child(lambda: (_silence(), failing(n))[1], 60)
        if r[0] != "ok":
            raise Violation("%s with unusable inputs: %s" % (n, r[1]))
        fl.append(r[1])
    after = []
    for j, fs in enumerate(fl):
        o = names[(j * 7 + 3) % len(names)]
        for i, f in enumerate(fs):
            after += [dict(calls=[f, (f[0], "ABC"[i % 3]), (o, "AB"[i % 2])], same=False), dict(calls=[(f[0], "A"), f, f, (f[0], "ACB"[i % 3]), (f[0], "B")], same=True)]
    sc.append(list_scope("after_failures", after[::1 if big else 3], check, note="calls that fail (inputs missing, of another type, shape or length) between calls that succeed"))
    trip = [(a, b, c) for a in names for b in names for c in names]
    step = 1 if big else 11
    sc.append(list_scope("triples", [dict(calls=[(a, "ABC"[i % 3]), (b, "ABC"[i // 3 % 3]), (c, "AB"[i // 9 % 2])], same=i // 18 % 2 == 0) for i, (a, b, c) in enumerate(trip)][::step], check, note="every (quick: every 11th) triple of operations, inputs rotating"))
    sc.append(list_scope("long", [dict(start=s, step=k, same=m) for s in range(0, len(sc_letters), 7) for k in (1, 2, 5, 7, 11, 13) for m in (True, False)], check_long, note="histories of 2 calls per operation and input"))
    p17.trees()
    orders = [tuple(0 if j in pos else 1 for j in range(8)) for pos in itertools.combinations(range(8), 4)]
    kinds = [("sbd", "sbd"), ("sbd", "reanno"), ("city", "city"), ("city", "half"), ("half", "city"), ("otf", "city"), ("otf", "otf"), ("reanno", "sbd")]
    cf = [("a", "b"), ("b", "a"), ("c", "a"), ("a", "c"), ("b", "c")]
    two = [dict(kinds=k, cfgs=cf[(i + j) % 5], thin=[(False, True), (True, False), (True, True)][(i // 5 + j) % 3], samples=[(None, 2), (1, None), (None, None), (2, 1)][(i + j // 2) % 4], order=o) for j, k in enumerate(kinds) for i, o in enumerate(orders)]
    sc.append(list_scope("two_evaluators", two, check_two, timeout=300, note="all interleavings of construct, configure, choose samples, evaluate (twice) on two evaluators"))
    other = [("edges", "B"), ("edges_inst", "A"), ("transform_inst", "C"), ("thin", "A"), ("ev_label_seal", "B")]
    for i in range(len(tconfs())):
        for inst in (False, True):
            for v in "AC":
                r = in_child(lambda: (_silence(), tcall(tmake(inst, i), inst, v))[1], 60)
                if r[0] != "ok":
                    raise Violation("transform %s on %s: %s" % (tconfs()[i], v, r[1]))
                TBASE[inst, i, v] = r[1]
    each = [(inst, i) for i in range(len(tconfs())) for inst in (False, True)]
    orders2 = merges([(0, None), (0, "A"), (0, "C")], [(1, None), (1, "A"), (1, "C")])
    sc.append(list_scope("transforms", [dict(t=[a, b], order=o) for a in each for b in each for o in orders2] + [dict(t=[a, b, d], order=[(0, None), (1, None), (2, None)] + [(k, "AC"[k % 2]) for k in o]) for a in each for b in each for d in each[::3] for o in ((0, 1, 2), (2, 0, 1))], check_transforms,
                         note="every pair of configured transforms, every interleaving of constructing them and calling each on two masks; three at a time"))
    L = mp_letters + other
    sc.append(list_scope("parallel_edges", [dict(calls=list(x), same=s) for k in (2, 3) for x in itertools.product(L, repeat=k) if any(l[0].startswith("mp") for l in x) for s in ((True, False) if k == 2 else (True,))][::1 if big else 3], check_mp, note="sequences with the parallel edge generation"))
    return sc, dict(budget=600 if tier == "quick" else 3300,
                    how="every sequence runs in a process of its own on real inputs; each result must equal the result of the same call as the first call of a new process, inputs are compared before and after each call, and every returned object is overwritten before the next call",
                    assumptions=["the matcher's clock-seeded random numbers are pinned before every call (which of several equally good matchings it returns is random by design)"])
