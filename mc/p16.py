"""P16: evaluating several categories."""
import itertools, os, shutil
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch
import dsgen as ds, evenv as ev, p13, p17

THR = (0.25, 0.55, 0.8)


def trees():
    t = {}
    for kind in ("sbd", "city"):
        root = os.path.join(scratch(), "tree16", kind)
        if not os.path.isdir(root):
            ev.build(kind, os.path.join(root, "data"), os.path.join(root, "pred"), samples=2)
        t[kind] = root
    t["reanno"], t["half"], t["otf"] = t["sbd"], t["city"], t["city"]
    return t


def listing(d):
    return sorted((os.path.relpath(os.path.join(a, f), d), os.stat(os.path.join(a, f)).st_mtime_ns) for a, _, fs in os.walk(d) for f in fs)


def table(lines):
    """A PrettyTable as list of dicts."""
    rows = [[c.strip() for c in l.strip().strip("|").split("|")] for l in lines if l.startswith("|")]
    return [dict(zip(rows[0], r)) for r in rows[1:]]


def check_saved(out, kind, cats, S, thr, samples=2, what="", split="val"):
    K = ev.NCLS[kind]
    saved = [ev.check_category(out, None, kind, split, c, S, thr, samples, what=what) for c in cats]
    want = sorted(["overall_eval_bdry.txt", "results.txt"] + ["class_%03d/%s" % (c, f) for c in sorted(set(cats)) for f in ("eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt")])
    got = sorted(n for n, _ in listing(out) if not n.endswith(".log"))
    expect(got == want, lambda: "%s %s: files %s, expected %s" % (kind, what, got, want))
    mean = np.mean(np.array(saved), 0)
    o = ev.read_rows(os.path.join(out, "overall_eval_bdry.txt"))
    expect(len(o) == 1 and len(o[0]) == 9 and all(abs(float(a) - b) <= 2.1e-6 for a, b in zip(o[0], mean)), lambda: "%s %s: overall_eval_bdry.txt %s, mean over the categories is %s" % (kind, what, o, mean.round(6)))
    txt = open(os.path.join(out, "results.txt")).read()
    a, _, b = txt.partition("Summary")
    rows = table(a.split("\n"))
    names = [ev.CLASSES[kind][c - 1] for c in cats]
    expect([r.get("Class") for r in rows] == names, lambda: "%s %s: results.txt lists classes %s, evaluated were %s" % (kind, what, [r.get("Class") for r in rows], names))
    for r, s, n in zip(rows, saved, names):
        for i, k in enumerate(p13.KEYS):
            if k in r:
                w, e = (s[i], 0.00501) if k == "ODS_threshold" else (s[i] * 100, 0.00061)
                expect(abs(float(r[k]) - w) <= e, lambda: "%s %s: results.txt gives %s=%s for %s, its own result is %s" % (kind, what, k, r[k], n, w))
    expect(all(k in rows[0] for k in ("ODS_recall", "ODS_precision", "ODS_f1", "ODS_threshold")), lambda: "columns of the class table: %s" % list(rows[0]))
    sm = table(b.split("\n"))
    expect(len(sm) == 1 and "ODS_f1" in sm[0], lambda: "%s: summary table %s" % (kind, sm))
    for i, k in enumerate(p13.KEYS):
        if k in sm[0] and k != "ODS_threshold":
            expect(abs(float(sm[0][k]) - mean[i] * 100) <= 0.00081, lambda: "%s %s: summary %s=%s, mean over the categories is %s" % (kind, what, k, sm[0][k], mean[i] * 100))
    return tuple(mean.round(5).tolist())


def check(c):
    kind = c["kind"]
    t = trees()[kind]
    e = ev.make(kind, os.path.join(t, "data"), os.path.join(t, "pred"), thin=c["thin"])
    S = p17.configure(e, kind, c["cfg"], c["thin"])
    calls = []
    real = e.evaluate_category
    def rec(*a, **k):
        calls.append(k.get("category", a[0] if a else None))
        return real(*a, **k)
    e.evaluate_category = rec
    top = ds.tmpdir()
    out = os.path.join(top, c["dir"])
    try:
        res = None
        for cats in c["runs"]:
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out) if c["dir"] == "made" else None
            del calls[:]
            arg = list(cats) if isinstance(cats, (list, tuple)) else cats
            given = arg
            e.evaluate(categories=arg, thresholds=list(THR), nproc=c["nproc"], save_dir=out)
            tick()
            expect(given == (list(cats) if isinstance(cats, (list, tuple)) else cats), "the category list was modified")
            full = list(range(1, ev.NCLS[kind] + 1)) if cats is None else [cats] if isinstance(cats, int) else list(cats)
            expect(not calls or calls == full, lambda: "%s: categories evaluated %s, requested %s" % (kind, calls, cats))
            res = check_saved(out, kind, full, S, THR, what="categories %s" % (cats,))
        return res
    finally:
        shutil.rmtree(top)


def check_nosave(c):
    kind = c["kind"]
    t = trees()[kind]
    e = ev.make(kind, os.path.join(t, "data"), os.path.join(t, "pred"))
    e.set_eval_params(scale=1.0)
    cwd = os.getcwd()
    top = ds.tmpdir()
    try:
        os.chdir(top)
        before = listing(t)
        e.evaluate(categories=c["cats"], thresholds=list(THR), nproc=1, save_dir=c["save"])
        if isinstance(c["cats"], int):
            o = e.evaluate_category(category=c["cats"], thresholds=list(THR), nproc=1, save_dir=c["save"])
            expect(set(p13.KEYS) <= set(o), "scores missing")
        tick()
        expect(listing(top) == [] and os.listdir(top) == [], lambda: "%s: save_dir=%r wrote %s" % (kind, c["save"], os.listdir(top)))
        expect(listing(t) == before, "%s: save_dir=%r changed the dataset" % (kind, c["save"]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)
    return "quiet"


def check_invalid(c):
    kind = c["kind"]
    K = ev.NCLS[kind]
    t = trees()[kind]
    bad = {"zero": 0, "neg": -1, "high": K + 1, "mix": [1, K + 1], "mix0": [0, 2], "neglist": [3, -2], "empty": [], "far": [1000]}[c["bad"]]
    e = ev.make(kind, os.path.join(t, "data"), os.path.join(t, "pred"))
    e.set_eval_params(scale=1.0)
    out = ds.tmpdir()
    try:
        try:
            e.evaluate(categories=bad, thresholds=list(THR), nproc=1, save_dir=out)
            ok = False
        except Exception:
            ok = True
        expect(ok, lambda: "%s: categories %s were accepted" % (kind, bad))
        left = [n for n, _ in listing(out) if n in ("overall_eval_bdry.txt", "results.txt")]
        expect(not left, lambda: "%s: categories %s left %s" % (kind, bad, left))
        if isinstance(bad, int):
            try:
                e.evaluate_category(category=bad, thresholds=list(THR), nproc=1, save_dir=out)
                ok = False
            except Exception:
                ok = True
            expect(ok, lambda: "%s: category %s was accepted" % (kind, bad))
        tick()
    finally:
        shutil.rmtree(out)
    return "rejected"


def build(tier):
    big = tier == "thorough"
    trees()
    sc = []
    for kind in ev.KINDS:
        K = ev.NCLS[kind]
        base = [1, 3, 12, 14, K]
        lists = [c for c in range(1, K + 1)] + [[c] for c in (1, K)] + [list(p) for n in (2, 3) for p in itertools.permutations(base if big else base[:4], n)] + [list(p) for p in itertools.permutations([2, 5, K], 3)] + [[3, 3], [14, 3, 14], [K, 1, 1, K]] + [list(range(K, 0, -1)), None]
        cf = [dict(eval_mode="post-seal", instance_sensitive=False), dict(eval_mode="post-seal"), dict(instance_sensitive=False, scale=1.0, max_dist=0.02)]
        cases = [dict(kind=kind, thin=bool((i + j) % 2), cfg=cf[j], dir=["made", "new/deep"][i % 2], nproc=2 if i % 9 == 0 else 1, runs=[l]) for i, l in enumerate(lists) for j in range(len(cf))]
        # several evaluations with one evaluator
        seq = [3, [K, 1], [14, 12, 3], None]
        cases += [dict(kind=kind, thin=False, cfg=cf[1], dir="o", nproc=1, runs=list(r)) for r in itertools.permutations(seq, 2)]
        sc.append(list_scope("lists_" + kind, cases, check, timeout=300, note="category lists in every order, single numbers, none; consecutive evaluations"))
    sc.append(product_scope("no_saving", [("kind", ev.KINDS), ("save", [None, ""]), ("cats", [2, [3, 1]])], check_nosave))
    sc.append(product_scope("invalid", [("kind", ev.KINDS), ("bad", ["zero", "neg", "high", "mix", "mix0", "neglist", "empty", "far"])], check_invalid))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="every listed category request is evaluated on real dataset trees; the class directories, result tables and averages are parsed and compared with scores computed by definition",
                    assumptions=["a category named twice is evaluated, listed and averaged twice"])
