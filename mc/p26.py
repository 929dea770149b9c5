"""P26: evaluation fails on missing or incomplete data."""
import itertools, os, shutil
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch, in_child
import dsgen as ds, evenv as ev, p13, p16, p17, p25

THR = (0.3, 0.6)
CATS = [3, 14]
N = 3


def trees():
    r = os.path.join(scratch(), "tree26")
    if os.path.isdir(r):
        return r
    for k in ("sbd", "city"):
        ev.build(k, os.path.join(r, k, "data"), os.path.join(r, k, "pred"), samples=N, cats=CATS)
        # a directory with all needed kinds of predictions
    for n in "abc":
        ds.write_bsds_gt(os.path.join(r, "bsds", "data", "groundTruth", "test", n + ".mat"), [np.array(g, bool) for g in p25.BS["b"]])
        ds.put(os.path.join(r, "bsds", "pred", "test", n + ".png"), p25.BSP["b"])
    return r


def fam(kind):
    return "bsds" if kind == "bsds" else "sbd" if kind in ("sbd", "reanno") else "city"


def pdir(kind):
    return "pred" + {"half": "_half", "otf": "_otf"}.get(kind, "")


def clone(kind):
    d = ds.tmpdir()
    shutil.copytree(os.path.join(trees(), fam(kind)), os.path.join(d, "t"), copy_function=os.link)
    return d


def needed(kind, thin, inst):
    """Files an evaluation of CATS reads, relative to the tree; each with its role."""
    out = []
    if kind == "bsds":
        for n in "abc":
            out += [("gt", "data/groundTruth/test/%s.mat" % n, None), ("pred", "pred/test/%s.png" % n, None)]
        return out
    for n in ev.NAMES[kind][:N]:
        if kind == "otf":
            f = "data/gtFine/val/" + n
            out.append(("seg", f + "_gtFine_labelIds.png", None))
            if inst:
                out.append(("inst", f + "_gtFine_instanceIds.png", None))
        else:
            f = "data/gtEval/" + ("" if fam(kind) == "sbd" else "val/") + n
            suf = dict(sbd=ds.SBD_EDGE, reanno=ds.REANNO_EDGE, city=ds.CITY_EDGE, half=ds.HALF_EDGE)[kind]
            out.append(("edge", f + suf[thin, inst], None))
            out.append(("seg", f + ("_labelIds.png" if fam(kind) == "sbd" else "_gtFine_labelTrainIds.png"), None))
        for c in CATS:
            out.append(("pred", "%s/class_%03d/%s%s" % (pdir(kind), c, n, ev.PRED_SUFFIX[kind]), c))
    return out


def dirs(kind):
    """Directories without which nothing can be evaluated."""
    if kind == "bsds":
        return ["data", "data/groundTruth", "data/groundTruth/test", "pred", "pred/test"]
    d = ["data", pdir(kind), pdir(kind) + "/class_%03d" % CATS[0], pdir(kind) + "/class_%03d" % CATS[1]]
    if kind == "otf":
        return d + ["data/gtFine", "data/gtFine/val"]
    return d + ["data/gtEval"] + (["data/gtEval/val"] if fam(kind) == "city" else [])


def hurt(path, how):
    if how == "missing":
        if os.path.isdir(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)
        return
    data = open(path, "rb").read()
    os.unlink(path)
    if how == "dir":
        os.makedirs(path)
    elif how == "dangling":
        os.symlink(path + ".nowhere", path)
    else:
        with open(path, "wb") as f:
            f.write(dict(empty=b"", half=data[:len(data) // 2], text=b"not an image\n" * 8, head=data[:12])[how])


def new(kind, d, thin, inst):
    root, pred = os.path.join(d, "t", "data"), os.path.join(d, "t", "pred")
    if kind == "bsds":
        from pyEdgeEval.evaluators import BSDS500Evaluator
        e = BSDS500Evaluator(root, pred)
        e.set_eval_params(apply_thinning=thin)
        return e
    e = ev.make(kind, root, pred, thin=thin)
    cfg = {} if kind == "reanno" else dict(eval_mode="post-seal")
    e.set_eval_params(instance_sensitive=inst, scale=1.0, **cfg)
    return e


def go(e, kind, nproc, out):
    if kind == "bsds":
        e.evaluate(list(THR), nproc, out)
    else:
        e.evaluate(categories=list(CATS), thresholds=list(THR), nproc=nproc, save_dir=out)


def good(e, kind, thin, inst, nproc, what):
    out = ds.tmpdir()
    try:
        go(e, kind, nproc, out)
        tick()
        if kind == "bsds":
            s, t = p17.rows(out)
            expect(sorted(r["name"] for r in s) == ["test/a", "test/b", "test/c"], "%s: rows %s" % (what, s))
            return tuple(r["f1"] for r in t)
        cfg = dict(instance_sensitive=inst, scale=1.0)
        if kind != "reanno":
            cfg["eval_mode"] = "post-seal"
        return p16.check_saved(out, kind, CATS, ev.settings(kind, cfg, thin), THR, samples=N, what=what)
    finally:
        shutil.rmtree(out)


def bad(e, kind, nproc, what, hurtcats=None):
    """evaluate() must raise and save no summary (nor results of the category that failed)."""
    out = ds.tmpdir()
    try:
        try:
            go(e, kind, nproc, out)
            ok = False
        except Exception as x:
            ok = True
        tick()
        expect(ok, lambda: "%s: evaluation went through; it saved %s" % (what, [n for n, _ in p16.listing(out)]))
        files = [n for n, _ in p16.listing(out)]
        wrong = [n for n in files if n in ("overall_eval_bdry.txt", "results.txt", "eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt")
                 or any(n.startswith("class_%03d/" % c) for c in (hurtcats or CATS))]
        expect(not wrong, lambda: "%s: evaluation failed, but saved %s" % (what, wrong))
    finally:
        shutil.rmtree(out)


def restore(kind, d, rel):
    src, dst = os.path.join(trees(), fam(kind), rel), os.path.join(d, "t", rel)
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    if os.path.isdir(src):
        shutil.copytree(src, dst, copy_function=os.link)
    else:
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        os.link(src, dst)


def check_faults(c):
    """Complete data, then damaged, then complete again, with one evaluator (or a new one each time)."""
    kind, thin, inst, nproc = c["kind"], c["thin"], c["inst"], c["nproc"]
    d = clone(kind)
    try:
        what = "%s thin=%s instance=%s nproc=%s, %s of %s" % (kind, thin, inst, nproc, c["how"], c["files"])
        e = new(kind, d, thin, inst)
        first = good(e, kind, thin, inst, nproc, what + " (before)") if c["before"] else None
        for f in c["files"]:
            hurt(os.path.join(d, "t", f), c["how"])
        if not c["before"]:
            e = new(kind, d, thin, inst)
        hit = None
        if kind != "bsds" and all("class_%03d" % CATS[1] in f for f in c["files"]):
            hit = [CATS[1]]
        bad(e, kind, nproc, what, hit)
        for f in c["files"]:
            restore(kind, d, f)
        again = good(new(kind, d, thin, inst) if not c["before"] else e, kind, thin, inst, nproc, what + " (restored)")
        expect(first is None or again == first, "%s: scores differ after the failure" % what)
        return (kind, c["how"])
    finally:
        shutil.rmtree(d)


def decoys(kind, rel):
    """Places near a missing file where something like it might lie: the levels above and below, other splits and classes, other names."""
    a, b = os.path.split(rel)
    stem, ext = os.path.splitext(b)
    up = os.path.dirname(a)
    out = [os.path.join(a, x) for x in (stem, stem + ext.upper(), stem + ".jpg", stem + ".npy", stem + ".tif", stem + ext + ".png", stem + "_old" + ext, "sub/" + b, stem.split("_")[0] + ext)]
    out += [os.path.join(up, x) for x in (b, "train/" + b, "class_3/" + b, "class_001/" + b, "class_3/" + b, "test_old/" + b)]
    out += ["data/" + b, os.path.dirname(rel.split("/")[0] + "/x") + "/" + b, b]
    base = os.path.join(trees(), fam(kind))
    return [x for x in dict.fromkeys(out) if x != rel and not os.path.lexists(os.path.join(base, x))]


def check_decoys(c):
    """One needed file is missing and files like it lie around."""
    kind, thin, inst = c["kind"], c["thin"], c["inst"]
    d = clone(kind)
    try:
        e = new(kind, d, thin, inst)
        src = os.path.join(trees(), fam(kind), c["file"])
        os.unlink(os.path.join(d, "t", c["file"]))
        for x in decoys(kind, c["file"]):
            x = os.path.join(d, "t", x)
            os.makedirs(os.path.dirname(x), exist_ok=True)
            os.link(src, x)
        if c["late"] and kind != "bsds":
            e = new(kind, d, thin, inst)
        bad(e, kind, c["nproc"], "%s thin=%s instance=%s without %s, similar files elsewhere" % (kind, thin, inst, c["file"]))
        return kind
    finally:
        shutil.rmtree(d)


def check_unneeded(c):
    """Files the evaluation does not use may be absent."""
    kind, thin, inst = c["kind"], c["thin"], c["inst"]
    d = clone(kind)
    try:
        keep = {f for _, f, _ in needed(kind, thin, inst)}
        gone = []
        base = os.path.join(d, "t")
        for a, _, fs in os.walk(base):
            for f in fs:
                rel = os.path.relpath(os.path.join(a, f), base)
                if rel not in keep and not rel.endswith(".txt"):
                    os.unlink(os.path.join(a, f))
                    gone.append(rel)
        return good(new(kind, d, thin, inst), kind, thin, inst, 1, "%s thin=%s instance=%s without unused files" % (kind, thin, inst)), len(gone)
    finally:
        shutil.rmtree(d)


def check_names(c):
    kind, how = c["kind"], c["how"]
    d = clone(kind)
    try:
        base = os.path.join(d, "t")
        split = dict(sbd="data/val.txt", reanno="data/val.txt").get(kind, "data/splits/val.txt")
        what = "%s sample names %s" % (kind, how)
        if how.startswith("split"):
            if kind == "bsds":
                g = os.path.join(base, "data/groundTruth/test")
                shutil.rmtree(g)
                if how != "split missing":
                    os.makedirs(g)
                if how == "split blank":
                    open(os.path.join(g, "notes.txt"), "w").close()
            else:
                f = os.path.join(base, split)
                if how == "split missing":
                    os.unlink(f)
                else:
                    text = {"split empty": "", "split blank": "\n", "split unknown": open(f).read() + "zz/nowhere\n", "split inner blank": open(f).read().replace("\n", "\n\n", 1)}[how]
                    os.unlink(f)
                    open(f, "w").write(text)
            try:
                e = new(kind, d, False, True)
            except Exception:
                tick()
                return how
        else:
            e = new(kind, d, False, True)
            names = e.sample_names
            first = None
            arg = {"unknown": names + ["zz/nowhere"], "unknown first": ["test/nowhere"] + names, "blank": [""], "blank last": names + [""], "empty": [], "tuple": tuple(names), "str": names[0], "dict": {n: 1 for n in names}, "None element": names + [None]}[how]
            try:
                e.set_sample_names(arg)
                took = True
            except Exception:
                took = False
            if not took:
                expect(how in ("empty", "tuple", "str", "dict", "None element") or how.startswith("unknown") or how.startswith("blank"), what)
                expect(e.sample_names == names, "%s: rejected, but the names are now %s" % (what, e.sample_names))
                good(e, kind, False, True, 1, what + " (rejected, then evaluated)")
                return how
            expect(how not in ("empty",), "%s: accepted" % what)
            if how in ("tuple", "dict"):
                return how
        for n in (1, 2):
            bad(e, kind, n, what)
        return how
    finally:
        shutil.rmtree(d)


def check_torn(c):
    """A file cut off after any number of bytes: the evaluation fails, or scores what the complete file says; never anything else."""
    kind, thin, inst = c["kind"], c["thin"], c["inst"]
    d = clone(kind)
    try:
        role, rel, _ = needed(kind, thin, inst)[c["file"]]
        f = os.path.join(d, "t", rel)
        data = open(f, "rb").read()
        failed = 0
        for n in range(c["start"], len(data), c["step"]):
            os.unlink(f)
            with open(f, "wb") as o:
                o.write(data[:n])
            what = "%s thin=%s instance=%s: %s cut off after %d of %d bytes" % (kind, thin, inst, rel, n, len(data))
            e = new(kind, d, thin, inst)
            out = ds.tmpdir()
            try:
                try:
                    go(e, kind, c["nproc"], out)
                    ok = True
                except Exception:
                    ok = False
                tick()
                if ok and kind == "bsds":
                    s, t = p17.rows(out)
                    expect((s, t) == reference(thin), lambda: "%s: evaluated as %s %s instead of %s" % (what, s, t, reference(thin)))
                elif ok:
                    cfg = dict(instance_sensitive=inst, scale=1.0)
                    if kind != "reanno":
                        cfg["eval_mode"] = "post-seal"
                    p16.check_saved(out, kind, CATS, ev.settings(kind, cfg, thin), THR, samples=N, what=what)
                else:
                    failed += 1
                    left = [x for x, _ in p16.listing(out) if x in ("overall_eval_bdry.txt", "results.txt", "eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt")]
                    expect(not left, lambda: "%s: failed, but saved %s" % (what, left))
            finally:
                shutil.rmtree(out)
        return (kind, role, failed)
    finally:
        shutil.rmtree(d)


WHOLE = {}


def reference(thin):
    if thin not in WHOLE:
        out = ds.tmpdir()
        go(new("bsds", clone("bsds"), thin, True), "bsds", 1, out)
        WHOLE[thin] = p17.rows(out)
        shutil.rmtree(out)
    return WHOLE[thin]


def check_dir(c):
    kind = c["kind"]
    d = clone(kind)
    try:
        what = "%s without directory %s" % (kind, c["dir"])
        e = new(kind, d, c["thin"], True) if c["late"] else None
        shutil.rmtree(os.path.join(d, "t", c["dir"]))
        try:
            e = e or new(kind, d, c["thin"], True)
        except Exception:
            tick()
            return c["dir"]
        for n in (1, 2):
            bad(e, kind, n, what, [CATS[1]] if c["dir"].endswith("class_%03d" % CATS[1]) else None)
        return c["dir"]
    finally:
        shutil.rmtree(d)


def check_cli(c):
    """The commands fail as well (nothing is reported as success)."""
    name = c["command"]
    kind = name if name in ("bsds", "sbd", "reanno") else "half" if name == "city_thin" else "city"
    d, out = clone(kind), ds.tmpdir()
    try:
        thin = kind != "city"
        f = needed(kind, thin, True)[c["file"]]
        hurt(os.path.join(d, "t", f[1]), c["how"])
        argv = [os.path.join(d, "t", "data"), os.path.join(d, "t", pdir(kind)), "--output-path", out, "--thresholds", "[0.3, 0.6]", "--nproc", str(c["nproc"])]
        if kind != "bsds":
            argv += ["--categories", "[3, 14]"]
        res = p25.run(name, argv)
        tick()
        expect(res[0] == "exc" and "does not terminate" not in res[1], lambda: "%s with %s %s: %s" % (name, c["how"], f[1], "went through" if res[0] == "ok" else res[1]))
        left = [n for n, _ in p16.listing(out) if n in ("overall_eval_bdry.txt", "results.txt", "eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt")]
        expect(not left, lambda: "%s with %s %s saved %s" % (name, c["how"], f[1], left))
        return (name, c["how"])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(out)


HOWS = ["missing", "empty", "half", "text", "dir", "dangling", "head"]


def build(tier):
    big = tier == "thorough"
    trees()
    sc = []
    for kind in ["bsds"] + ev.KINDS:
        one, two = [], []
        i = 0
        for thin, inst in itertools.product((False, True), repeat=2):
            if kind == "bsds" and not inst:
                continue
            need = needed(kind, thin, inst)
            for role, f, cat in need:
                for how in HOWS:
                    if role == "seg" and kind != "otf" and how not in ("missing", "dangling") and (inst or kind == "reanno"):
                        continue          # present but not read in this setting
                    for nproc in (1, 2):
                        i += 1
                        one.append(dict(kind=kind, thin=thin, inst=inst, nproc=nproc, files=[f], how=how, before=i % 2 == 0))
                        if kind == "bsds" and how == "missing":
                            one[-1]["before"] = True      # the samples are those present when the evaluator is made
                        elif big:
                            one.append(dict(one[-1], before=i % 2 == 1))
            for a, b in itertools.combinations([f for _, f, _ in need], 2):
                for nproc in (1, 3):
                    i += 1
                    two.append(dict(kind=kind, thin=thin, inst=inst, nproc=nproc, files=[a, b], how="missing", before=i % 2 == 0 or kind == "bsds"))
        sc.append(list_scope("single_" + kind, one, check_faults, timeout=60, note="every file an evaluation reads x every kind of damage x sequential/parallel; complete - damaged - complete"))
        sc.append(list_scope("double_" + kind, two if big or kind == "bsds" else two[::5], check_faults, timeout=60, note="pairs of missing files"))
    K = ["bsds"] + ev.KINDS
    sc.append(list_scope("elsewhere", [dict(kind=k, thin=t, inst=i, file=f, late=bool((t + i + n) % 2), nproc=1 + n % 2) for k in K for t, i in itertools.product((False, True), repeat=2) if k != "bsds" or i
                                       for n, (_, f, cat) in enumerate(needed(k, t, i)) if cat in (None, CATS[0]) or k == "bsds"], check_decoys, timeout=60, note="every needed file missing, its content in similarly named files and neighbouring directories"))
    sc.append(product_scope("unneeded", [("kind", K), ("thin", [False, True]), ("inst", [False, True])], check_unneeded))
    torn = []
    for kind in K:
        for thin, inst in [(False, True), (True, False)]:
            need = needed(kind, thin, inst)
            for i, (role, f, cat) in enumerate(need):
                if role == "seg" and kind != "otf" and (inst or kind == "reanno"):
                    continue
                torn += [dict(kind=kind, thin=thin, inst=inst, file=i, start=j, step=16, nproc=2 if j == i else 1) for j in range(0, 16, 3 if thin and kind != "bsds" and not big else 1)]
    sc.append(list_scope("torn", torn, check_torn, timeout=300, note="every file an evaluation reads, cut off after every number of bytes"))
    S = ["split missing", "split empty", "split blank", "split unknown", "split inner blank"]
    L = ["unknown", "unknown first", "blank", "blank last", "empty", "tuple", "str", "dict", "None element"]
    sc.append(list_scope("names", [dict(kind=k, how=h) for k in K for h in S + L if not (k == "bsds" and h in S[3:])], check_names))
    sc.append(list_scope("directories", [dict(kind=k, dir=x, late=l, thin=t) for k in K for x in dirs(k) for l in (False, True) for t in (False, True)], check_dir))
    sc.append(list_scope("commands", [dict(command=n, file=f, how=h, nproc=p) for n in p25.NAMES for f in range(6) for h in ("missing", "empty") for p in (1, 2)
                                      if not (h == "empty" and n != "bsds" and f % 4 == 1) and not (n == "bsds" and f % 2 == 0 and h == "missing")], check_cli, timeout=300, note="damaged files through the command entry points"))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="fault injection: every file, pair of files, directory and name list an evaluation needs is removed or damaged, with real evaluators and real worker pools, before and between evaluations",
                    assumptions=["segmentation files that a setting does not read need only exist"])
