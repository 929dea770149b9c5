"""P17: settings used by an evaluation are those of the last configuration."""
import itertools, os, shutil
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch, NoAnswer
import dsgen as ds, evenv as ev

THR = (0.3, 0.6, 0.75)


def cfgs(kind):
    c = [dict(), dict(eval_mode="post-seal"), dict(eval_mode="post-seal", instance_sensitive=False), dict(eval_mode="pre-seal", instance_sensitive=False),
         dict(instance_sensitive=False, kill_internal=True, skip_if_nonexistent=True, max_dist=0.02), dict(instance_sensitive=True, kill_internal=True, max_dist=0.03),
         dict(instance_sensitive=False, skip_if_nonexistent=True), dict(eval_mode="post-seal", max_dist=0.02, scale=0.5, kill_internal=True),
         dict(eval_mode="pre-seal", instance_sensitive=False, max_dist=0.001, scale=1.0, skip_if_nonexistent=False, kill_internal=False),
         dict(eval_mode="post-seal", instance_sensitive=False, apply_thinning=True, scale=1.0), dict(apply_thinning=True, scale=1), dict(apply_nms=True, instance_sensitive=False, scale=0.5),
         dict(eval_mode=None, instance_sensitive=False, kill_internal=False, skip_if_nonexistent=False, max_dist=0.0075, scale=0.75)]
    if kind == "sbd":
        c.append(dict(eval_mode="pre-seal", instance_sensitive=True))
        c.append(dict(eval_mode="pre-seal"))
    return c


BAD = [dict(scale=0), dict(scale=1.5), dict(scale=-0.5), dict(scale=2, eval_mode="post-seal"), dict(scale=0.0, eval_mode="pre-seal", instance_sensitive=False)]


def trees():
    t = {}
    for kind in ("sbd", "city"):
        root = os.path.join(scratch(), "tree17", kind)
        if not os.path.isdir(root):
            ev.build(kind, os.path.join(root, "data"), os.path.join(root, "pred"), splits=("val", "test"), cats=[3, 9, 12, 14])
            if kind == "city":
                ev.build(kind, os.path.join(root, "alt"), os.path.join(root, "alt_pred"), splits=("val", "test"), cats=[3, 9, 12, 14], gt_dir="gtOther", pred_suffix="_p.png", samples=2)
            else:
                ev.build(kind, os.path.join(root, "alt"), os.path.join(root, "alt_pred"), splits=("val", "test"), cats=[3, 9, 12, 14], gt_dir="gtOther", pred_suffix="_p.png", samples=2)
        t[kind] = root
    t["reanno"], t["half"], t["otf"] = t["sbd"], t["city"], t["city"]
    return t


def configure(e, kind, cfg, thin):
    want = ev.settings(kind, cfg, thin)
    try:
        e.set_eval_params(**cfg)
    except Exception as x:
        expect(want is None, lambda: "%s rejects %s: %r" % (kind, cfg, x))
        return None
    expect(want is not None, lambda: "%s accepts %s" % (kind, cfg))
    return want


def evaluate(e, kind, split, cat, S, samples=3, what=""):
    out = ds.tmpdir()
    try:
        o = e.evaluate_category(category=cat, thresholds=list(THR), nproc=1, save_dir=out)
        tick()
        return tuple(round(v, 6) for v in ev.check_category(out, o, kind, split, cat, S, THR, samples, what=what))
    finally:
        shutil.rmtree(out)


def check_seq(c):
    t = trees()[c["kind"]]
    e = ev.make(c["kind"], os.path.join(t, "data"), os.path.join(t, "pred"), split=c["split"], thin=c["thin"])
    S = None
    for cfg in c["cfgs"]:
        r = configure(e, c["kind"], cfg, c["thin"])
        S = r or S
        tick()
        if c.get("each") and r:
            evaluate(e, c["kind"], c["split"], c["cat"], r, what="after %s" % c["cfgs"])
    if S is None:
        return "rejected"
    p = e.eval_params
    for k, w in (("max_dist", S["md"]), ("kill_internal", S["kill"]), ("skip_if_nonexistent", S["skip"]), ("apply_thinning", S["at"]), ("apply_nms", S["an"]), ("scale", S["scale"])):
        expect(k not in p or p[k] == w, lambda: "%s after %s reports %s=%r, expected %r" % (c["kind"], c["cfgs"], k, p[k], w))
    return evaluate(e, c["kind"], c["split"], c["cat"], S, what="after %s" % c["cfgs"])


def check_values(c):
    """Settings are kept as given, to the last digit; a scale outside (0, 1] is refused however close it is."""
    t = trees()[c["kind"]]
    e = ev.make(c["kind"], os.path.join(t, "data"), os.path.join(t, "pred"))
    S, seen = None, []
    for cfg in c["cfgs"]:
        S = configure(e, c["kind"], cfg, False) or S
        tick()
        if S is None:
            continue
        p = e.eval_params
        for k, w in (("max_dist", S["md"]), ("kill_internal", S["kill"]), ("skip_if_nonexistent", S["skip"]), ("apply_thinning", S["at"]), ("apply_nms", S["an"]), ("scale", S["scale"])):
            expect(k not in p or p[k] == w, lambda: "%s after %s reports %s=%r, expected %r" % (c["kind"], c["cfgs"], k, p[k], w))
        seen.append((S["md"], S["scale"]))
    return tuple(seen)


FORMS = ["absolute", "slash", "relative", "dot", "up", "double", "link", "odd", "Path"]


def spelled(path, how, base):
    """Another way of writing a path; `base` is the current directory."""
    rel = os.path.relpath(path, base)
    if how == "slash":
        return path + "/"
    if how == "relative":
        return rel
    if how == "dot":
        return "./" + rel + "/."
    if how == "up":
        return os.path.join(os.path.dirname(path), "none", "..", os.path.basename(path)) if os.path.isdir(os.path.join(os.path.dirname(path), "none")) else os.path.join("..", os.path.basename(base), rel)
    if how == "double":
        return path.replace("/", "//")[1:]
    if how in ("link", "odd"):
        n = os.path.join(base, "a link" if how == "link" else "50%d {x} gtEval val.png \u00e4")
        n += "_" + os.path.basename(path)
        if not os.path.lexists(n):
            os.symlink(path, n)
        return n
    if how == "Path":
        import pathlib
        return pathlib.Path(path)
    return path


def check_paths(c):
    """The spelling of a path does not matter."""
    kind, split = c["kind"], c["split"]
    t = trees()[kind]
    cat = 14 if kind == "otf" else 9
    base, cwd = ds.tmpdir(), os.getcwd()
    try:
        os.chdir(base)
        out = os.path.join(base, "out", "deep")
        sfx = {"half": "_half", "otf": "_otf"}.get(kind, "")
        from pyEdgeEval import evaluators as E
        from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator
        cls = dict(sbd=E.SBDEvaluator, reanno=ReannoSBDEvaluator, city=E.CityscapesEvaluator, half=E.HalfCityscapesEvaluator, otf=E.OTFCityscapesEvaluator)[kind]
        e = cls(dataset_root=spelled(os.path.join(t, "data"), c["data"], base), pred_root=spelled(os.path.join(t, "pred") + sfx, c["pred"], base), split=split)
        S = configure(e, kind, dict(instance_sensitive=False, max_dist=0.02, kill_internal=kind != "reanno"), False)
        given = spelled(out, c["out"] if c["out"] not in ("link", "odd") else "absolute", base)
        e.evaluate(categories=[cat], thresholds=list(THR), nproc=c["nproc"], save_dir=given)
        tick()
        got = sorted(os.listdir(out))
        expect(got == ["class_%03d" % cat, "overall_eval_bdry.txt", "results.txt"], lambda: "%s: files %s in %r" % (c, got, given))
        extra = sorted(set(os.listdir(base)) - {"out"} - {n for n in os.listdir(base) if os.path.islink(n)})
        expect(not extra, lambda: "%s: left %s in the current directory" % (c, extra))
        return tuple(round(v, 6) for v in ev.check_category(out, None, kind, split, cat, S, THR, what="with paths %s" % c))
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)


def check_ctor(c):
    """Evaluators constructed one after the other with different options do not influence each other."""
    made = []
    for kind, alt, split, thin in c["ctors"]:
        t = trees()[kind]
        kw = dict(split=split, thin=thin)
        if alt:
            kw.update(gt_dir="gtOther", pred_suffix="_p.png")
        e = ev.make(kind, os.path.join(t, "alt" if alt else "data"), os.path.join(t, "alt_pred" if alt else "pred"), **kw)
        made.append((e, kind, alt, split, thin))
    out = []
    for e, kind, alt, split, thin in made if c["fwd"] else made[::-1]:
        S = configure(e, kind, c["cfg"], thin)
        out.append(evaluate(e, kind, split, 14 if kind == "otf" else 9, S, samples=2 if alt else 3, what="with %s constructed" % (c["ctors"],)))
    return tuple(out)


def check_setters(c):
    """Two evaluators alive, their setters called in an interleaved order: each keeps its own settings."""
    t = trees()[c["kind"]]
    kind, split = c["kind"], c["split"]
    late = hasattr(ev.make(kind, os.path.join(t, "data"), os.path.join(t, "pred"), split=split), "set_pred_suffix")
    A = ev.make(kind, os.path.join(t, "alt"), os.path.join(t, "alt_pred"), split=split, gt_dir="gtOther", **({} if late else dict(pred_suffix="_p.png")))
    B = ev.make(kind, os.path.join(t, "data"), os.path.join(t, "pred"), split=split)
    E, S, n = dict(A=A, B=B), {}, dict(A=2, B=3)
    what = "with interleaved setters %s" % (c["order"],)
    nth = dict(A=0, B=0)
    for who in c["order"]:
        op = [("params", "suffix", "names"), ("names", "params", "params")][who == "B"][nth[who]]
        nth[who] += 1
        e = E[who]
        if op == "params":
            S[who] = configure(e, kind, c["cfgs"][(who == "B") + (nth[who] == 3)], False)
        elif op == "suffix" and late:
            e.set_pred_suffix("_p.png")
        elif op == "names":
            n[who] -= 1
            names = ev.names(kind, split, n[who])
            if who == "A":
                e.set_sample_names(list(names))
            else:
                f = os.path.join(ds.tmpdir(), "list.txt")
                ds.put(f, text="\n".join(names) + "\n")
                e.set_sample_names(split_file=f)
                shutil.rmtree(os.path.dirname(f))
        tick()
    out = []
    for who in "BA" if c["first"] else "AB":
        e = E[who]
        expect(list(e.sample_names) == ev.names(kind, split, n[who]), lambda: "%s: samples %s %s" % (kind, e.sample_names, what))
        out.append(evaluate(e, kind, split, 14 if kind == "otf" else 9, S[who], samples=n[who], what=what))
    return tuple(out)


def check_names(c):
    """Sequences of sample-name settings, rejected ones included: the samples are those of the last accepted one."""
    kind, split = c["kind"], c["split"]
    t = trees()[kind]
    e = ev.make(kind, os.path.join(t, "data"), os.path.join(t, "pred"), split=split)
    full = ev.names(kind, split, 3)
    now, d = list(e.sample_names), ds.tmpdir()
    try:
        for i, op in enumerate(c["ops"]):
            f = os.path.join(d, "names%d.txt" % i)
            arg, want = {"two": (dict(sample_names=full[:2]), full[:2]), "last": (dict(sample_names=full[2:]), full[2:]), "default": ({}, full),
                         "file": (dict(split_file=f), full[1:]), "none": (dict(sample_names=[]), None), "text": (dict(sample_names=full[0]), None), "number": (dict(sample_names=1), None),
                         "empty_file": (dict(split_file=f), None), "no_file": (dict(split_file=f + ".missing"), None)}[op]
            if op.endswith("file"):
                ds.put(f, text="".join(n + "\n" for n in full[1:]) if op == "file" else "")
            try:
                e.set_sample_names(**arg)
            except Exception as x:
                expect(want is None, lambda: "%s: samples %s are rejected: %r" % (kind, arg, x))
            else:
                expect(want is not None, lambda: "%s: samples %s are accepted" % (kind, arg))
                now = want
            tick()
            expect(list(e.sample_names) == list(now), lambda: "%s: the samples are %s after %s, expected %s" % (kind, e.sample_names, c["ops"][:i + 1], now))
        S = configure(e, kind, dict(instance_sensitive=False, max_dist=0.02), False)
        out = ds.tmpdir()
        try:
            e.evaluate_category(category=14 if kind == "otf" else 9, thresholds=list(THR), nproc=1, save_dir=out)
            got = [r[0] for r in ev.read_rows(os.path.join(out, "class_%03d" % (14 if kind == "otf" else 9), "eval_bdry_img.txt"))]
            expect(got == list(now), lambda: "%s: evaluated %s after %s, expected %s" % (kind, got, c["ops"], now))
            tick()
        finally:
            shutil.rmtree(out)
        return tuple(now)
    finally:
        shutil.rmtree(d)


def check_bsds(c):
    root = os.path.join(scratch(), "tree17", "bsds")
    from models import bits
    pred = {"b": None, "a": None}
    gts = dict(b=[bits(0b100110001, 3, 3), bits(0b1, 3, 3)], a=[bits(0b111000, 3, 3)])
    preds = dict(b=np.array([[250, 0, 100], [200, 200, 0], [0, 160, 250]], np.uint8), a=np.array([[180, 250, 0], [250, 250, 120], [250, 0, 90]], np.uint8))
    if not os.path.isdir(root):
        tmp = root + ".%d" % os.getpid()
        for n in "ab":
            ds.write_bsds_gt(os.path.join(tmp, "data", "groundTruth", c["split"], n + ".mat"), gts[n])
            for s in ("val", "test"):
                ds.write_bsds_gt(os.path.join(tmp, "data", "groundTruth", s, n + ".mat"), gts[n])
                ds.put(os.path.join(tmp, "pred", s, n + ".png"), preds[n])
            ds.put(os.path.join(tmp, "pred", n + ".png"), preds[n].T.copy())
        try:
            os.rename(tmp, root)
        except OSError:
            shutil.rmtree(tmp)
    base, cwd = ds.tmpdir(), os.getcwd()
    try:
        os.chdir(base)
        return run_bsds(c, root, base, gts, preds)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)


def run_bsds(c, root, base, gts, preds):
    from pyEdgeEval.evaluators import BSDS500Evaluator
    import p04
    F = c.get("forms", ("absolute",) * 3)
    e = BSDS500Evaluator(spelled(os.path.join(root, "data"), F[0], base), spelled(os.path.join(root, "pred"), F[1], base), split=c["split"])
    for cfg in c["cfgs"]:
        bad = not 0 < cfg.get("scale", 1.0) <= 1
        try:
            e.set_eval_params(**cfg)
        except Exception as x:
            expect(bad, "BSDS rejects %s: %r" % (cfg, x))
            continue
        expect(not bad, lambda: "BSDS accepts %s" % cfg)
        S = cfg
    if c.get("names"):
        e.set_sample_names([os.path.join(c["split"], n) for n in c["names"]])
    names = e.sample_names
    expect(sorted(names) == [os.path.join(c["split"], n) for n in "ab"], lambda: "BSDS samples %s" % names)
    out = ds.tmpdir()
    try:
        o = e.evaluate(list(THR), 1, spelled(out, F[2], base), no_split_dir=c["flat"])
        tick()
        counts = []
        for n in names:
            b = os.path.basename(n)
            p = preds[b].T if c["flat"] else preds[b]
            m = p04.model(np.array(THR), p / 255.0, gts[b], S.get("max_dist", 0.0075), S.get("apply_thinning", True), 1 if S.get("apply_nms") else 0)
            if m is None:
                raise NoAnswer("model out of range")
            counts.append([tuple(int(z[i]) for z in m) for i in range(len(THR))])
        import p13
        p13.verify(rows(out) + (o,), list(THR), names, counts, "BSDS %s split %s flat=%s" % (c["cfgs"], c["split"], c["flat"]), tol=1.01e-6)
        return tuple(round(float(o[k]), 6) for k in p13.KEYS)
    finally:
        shutil.rmtree(out)


def rows(d):
    K = ["threshold", "recall", "precision", "f1"]
    s = [dict(zip(["name"] + K, [r[0]] + [float(v) for v in r[1:]])) for r in ev.read_rows(os.path.join(d, "eval_bdry_img.txt"))]
    t = [dict(zip(K, [float(v) for v in r])) for r in ev.read_rows(os.path.join(d, "eval_bdry_thr.txt"))]
    return s, t


def build(tier):
    big = tier == "thorough"
    trees()
    sc = []
    for kind in ev.KINDS:
        C = cfgs(kind)
        seqs = [[a] for a in C] + [[a, b] for a in C for b in C] + [[a, b, d] for a in C[:4] for b in BAD[:3] for d in C[1:5]] + [[b] for b in BAD]
        if kind in ("city", "half", "otf"):
            seqs += [[dict(eval_mode="pre-seal", instance_sensitive=True)], [dict(eval_mode="pre-seal")], [dict(eval_mode="pre-seal"), C[1]]]
            bad = BAD + [dict(eval_mode="pre-seal", scale=0.25, apply_thinning=True), dict(eval_mode="pre-seal", apply_nms=True, max_dist=0.05, instance_sensitive=True)]
        else:
            bad = BAD
        seqs += [[a] + [b] * n for a in C for b in bad for n in (1, 2)]      # a rejected call changes nothing
        seqs += [[a, b, d] for a in C for b in C for d in C][::1 if big else 7]
        B = (False, True)
        seqs += [[dict(eval_mode=m, instance_sensitive=i, apply_thinning=t, apply_nms=n, kill_internal=k, skip_if_nonexistent=z)] for m in (None, "pre-seal", "post-seal") for i in B for t in B for n in B for k in B for z in B]   # every combination of options
        seqs += [[dict(eval_mode=m, instance_sensitive=False, apply_thinning=t, apply_nms=n, scale=0.5)] for m in (None, "pre-seal", "post-seal") for t in B for n in B]
        sc.append(list_scope("sequences_" + kind, [dict(kind=kind, split=("val", "test")[(i // 3) % 2], thin=th, cat=([12, 14] if kind == "otf" else [3, 9])[(i + j) % 2], cfgs=s, each=(i % 5 == 0)) for i, s in enumerate(seqs) for j, th in enumerate((False, True))], check_seq,
                             timeout=300, note="every sequence of up to %d configurations (every 7th of three; rejected ones included)" % (3 if big else 2)))
    inf = float("inf")
    vals = [dict(scale=s, max_dist=m) for s in (1 / 3, 0.12345, 1e-4, 1e-300, 0.99999, 1, 1.0, True) for m in (0.0075, 0.0035, 0.0012345678, 1 / 3, 1e-9, 0.5)] + [dict(scale=s) for s in (1.0004, 1 + 2 ** -52, -1e-12, inf, -inf, 1.49, 100)]
    sc.append(list_scope("values", [dict(kind=k, cfgs=[dict(a, eval_mode=m, instance_sensitive=i), dict(b, instance_sensitive=i)]) for k in ev.KINDS for m in (None, "post-seal", "pre-seal") for i in (False, True) for j, a in enumerate(vals) for b in (vals[::-1][j], vals[(j * 7 + 3) % len(vals)])], check_values, note="tolerances and scales of many digits and scales just outside (0, 1], two configurations after each other"))
    ctor = [(k, a, s, t) for k in ev.KINDS for a in (0, 1) for s in ("val", "test") for t in (False, True)]
    pairs = list(itertools.product(ctor, repeat=2))
    if not big:
        pairs = pairs[::3]
    sc.append(list_scope("constructors", [dict(ctors=list(p), fwd=(i // 2) % 2, cfg=[dict(instance_sensitive=False, max_dist=0.02), dict(eval_mode="post-seal")][i % 2]) for i, p in enumerate(pairs)], check_ctor, timeout=300, note="pairs of evaluators with different directories, suffixes, splits and modes"))
    merges = sorted(set(itertools.permutations("AAABBB")))
    trip = [(dict(instance_sensitive=False, max_dist=0.02), dict(eval_mode="post-seal"), dict(apply_thinning=True)), (dict(scale=0.75, instance_sensitive=False), dict(), dict(instance_sensitive=False, kill_internal=True)), (dict(), dict(apply_nms=True), dict(eval_mode="pre-seal", instance_sensitive=False))]
    sc.append(product_scope("interleaved_setters", [("kind", ev.KINDS), ("split", ["val", "test"] if big else ["val"]), ("cfgs", trip), ("first", [0, 1] if big else [0]), ("order", ["".join(m) for m in merges])], check_setters, timeout=300, note="two evaluators alive: every interleaving of their setters (suffix, sample names by list and by file, configurations)"))
    ops = ["two", "last", "default", "file", "none", "text", "number", "empty_file", "no_file"]
    sc.append(list_scope("sample_names", [dict(kind=k, split=["val", "test"][(i + j) % 2], ops=list(o)) for i, k in enumerate(ev.KINDS) for j, o in enumerate([o for n in (1, 2, 3)[:2 + big] for o in itertools.product(ops, repeat=n)])], check_names, timeout=120, note="every sequence of up to %d settings of the sample names (lists, files, rejected ones)" % (2 + big)))
    sc.append(list_scope("paths", [dict(kind=k, split=["val", "test"][(i + a + b) % 2], data=FORMS[a], pred=FORMS[b], out=FORMS[(a * 2 + b + i) % len(FORMS)], nproc=1 + (a + b) % 7 // 6) for i, k in enumerate(ev.KINDS) for a in range(len(FORMS)) for b in range(len(FORMS))], check_paths, timeout=120, note="absolute, relative, linked, oddly spelled and pathlib paths of the dataset, the predictions and the output"))
    B = [dict(), dict(apply_thinning=False), dict(max_dist=0.3), dict(apply_nms=True), dict(apply_thinning=True, max_dist=0.24, scale=1.0), dict(scale=0.5), dict(scale=0), dict(scale=1.01)]
    seqs = [s for n in (1, 2) for s in itertools.product(B, repeat=n) if 0 < s[-1].get("scale", 1) <= 1]
    sc.append(product_scope("bsds", [("split", ["val", "test"]), ("flat", [False, True]), ("names", [None, ["a", "b"], ["b", "a"]]), ("cfgs", [list(s) for s in seqs])], check_bsds))
    sc.append(list_scope("bsds_paths", [dict(split=["val", "test"][i % 2], flat=bool(i // 2 % 2), names=None, cfgs=[dict(max_dist=0.3)], forms=f) for i, f in enumerate([(a, b, FORMS[(j + 2 * i) % len(FORMS)]) for j, a in enumerate(FORMS) for i, b in enumerate(FORMS)])], check_bsds))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="every sequence of configuration calls is run on a real evaluator over a dataset tree in which each setting, file variant and split changes the scores; the saved scores are compared with those computed by definition for the last configuration",
                    assumptions=["the datasets distinguish the settings; configuration values beyond the listed ones are assumed to be handled alike"])
