"""P25: the evaluation commands run the evaluation their options describe."""
import itertools, os, shutil, sys
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch, NoAnswer, in_child
import dsgen as ds, evenv as ev, p13, p16, p17, p04

THR = (0.3, 0.6, 0.75)
ROOT = lambda: os.path.join(scratch(), "tree25")
CATS = [3, 14]
BS = dict(b=([[1, 0, 0], [1, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, 0], [0, 0, 0]]), a=([[1, 1, 1], [0, 0, 0], [0, 0, 0]],))
BSP = dict(b=np.array([[250, 0, 100], [200, 200, 0], [0, 160, 250]], np.uint8), a=np.array([[180, 250, 0], [250, 250, 120], [250, 0, 90]], np.uint8))


def trees():
    r = ROOT()
    if os.path.isdir(r):
        return r
    for k in ("sbd", "city"):
        ev.build(k, os.path.join(r, k), os.path.join(r, k + "_pred"), samples=2)
        ev.build(k, os.path.join(r, k + "2"), os.path.join(r, k + "2_pred"), samples=2, gt_dir="gtOther", cats=CATS, pred_suffix=ev.PRED_SUFFIX[k] if k == "city" else "_p.png")
    for split in ("val", "test"):
        for n in "ab" if split == "val" else "b":
            ds.write_bsds_gt(os.path.join(r, "bsds", "groundTruth", split, n + ".mat"), [np.array(g, bool) for g in BS[n]])
            ds.put(os.path.join(r, "bsds_pred", split, n + ".png"), BSP[n])
    for n in "ab":
        ds.put(os.path.join(r, "bsds_pred", n + ".png"), BSP[n].T.copy())
    return r


def command(name):
    from pyEdgeEval.helpers import evaluate_bsds500 as b, evaluate_cityscapes as c, evaluate_sbd as s
    return dict(bsds=b.evaluate_bsds500, sbd=s.evaluate_sbd, reanno=s.evaluate_reanno_sbd, city_raw=c.evaluate_cityscapes_raw, city_thin=c.evaluate_cityscapes_thin)[name]


def run(name, argv, cwd=None, **kw):
    """One command line in a fresh process."""
    def go():
        if cwd:
            os.chdir(cwd)
        f = command(name)
        sys.argv = ["prog"] + argv
        f(**kw)
    return in_child(go, 250)


def view(src):
    """A private directory holding the predictions (links), so that default outputs land in it."""
    d = ds.tmpdir()
    for n in os.listdir(src):
        os.symlink(os.path.join(src, n), os.path.join(d, n))
    return d


# options: name -> list of argv fragments with their meaning
def options(name):
    o = dict(thresholds=[THR, (0.5,), (0.75, 0.3), 2], out=["given", "nested", "default"], nproc=[1, 2, None])
    if name == "bsds":
        o.update(max_dist=[None, 0.3, 0.24], raw=[False, True], nms=[False, True], val=[False, True], flat=[False, True])
        return o
    o.update(cats=[CATS, 14, 3, [14, 3]], pre=[False, True], nonis=[False, True], max_dist=[None, 0.02, 0.001] if name != "city_thin" else [None, 0.03, 0.001], nms=[False, True], tree=["main", "alt"])
    if name in ("sbd", "reanno"):
        o.update(raw=[False, True])
    if name == "city_raw":
        o.update(scale=[None, 1.0, 0.75], half=[False, True])
    return o


def combos(name, depth):
    o = options(name)
    base = {k: v[0] for k, v in o.items()}
    seen = [base]
    for d in range(1, depth + 1):
        for ks in itertools.combinations(o, d):
            for vs in itertools.product(*[o[k][1:] for k in ks]):
                seen.append(dict(base, **dict(zip(ks, vs))))
    return seen


def text(v):
    if isinstance(v, (tuple, list)):
        return "[" + ", ".join(map(str, v)) + "]"
    return str(v)


def linspace(n):
    return [(i + 1) / (n + 1) for i in range(n)]


def check(c):
    name = c["command"]
    o = c["opts"]
    r = trees()
    kind = name if name in ("bsds", "sbd", "reanno") else "half" if name == "city_thin" or o["half"] else "city"
    alt = o.get("tree") == "alt"
    fam = "bsds" if kind == "bsds" else "sbd" if kind in ("sbd", "reanno") else "city"
    pred = view(os.path.join(r, fam + ("2" if alt else "") + "_pred" + ("_half" if kind == "half" else "")))
    top = ds.tmpdir()
    argv = [os.path.join(r, fam + ("2" if alt else "")), pred + ("/" if c.get("slash") else "")]
    out = {"given": os.path.join(top, "o"), "nested": os.path.join(top, "x/y z/w"), "default": None}[o["out"]]
    if o["out"] == "given":
        os.makedirs(out)
    opt = []
    if out:
        opt += [["--output-path", out]]
    if o["thresholds"] is not None:
        opt += [["--thresholds", text(o["thresholds"])]]
    if o["nproc"]:
        opt += [["--nproc", str(o["nproc"])]]
    if o["max_dist"] is not None:
        opt += [["--max-dist", str(o["max_dist"])]]
    for k, f in (("raw", "--raw"), ("nms", "--apply-nms"), ("val", "--use-val"), ("pre", "--pre-seal"), ("nonis", "--nonIS"), ("half", "--half")):
        if o.get(k):
            opt += [[f]]
    if o.get("cats") is not None:
        opt += [["--categories", text(o["cats"])]]
    if o.get("scale") is not None:
        opt += [["--scale", str(o["scale"])]]
    if alt and fam == "sbd":
        opt += [["--pred-suffix", "_p.png"]]
    kw = {}
    if alt:
        kw["gt_dir"] = "gtOther"
    if o.get("flat"):
        kw["no_split_dir"] = True
    if c["order"]:
        opt = opt[::-1]
        argv = sum(opt, []) + argv
    else:
        argv = argv + sum(opt, [])
    try:
        before = set(os.listdir(pred))
        res = run(name, argv, top, **kw)
        tick()
        what = "%s %s %s" % (name, " ".join(argv[2:] if not c["order"] else argv[:-2]), kw or "")
        new = sorted(set(os.listdir(pred)) - before)
        S = None
        if kind != "bsds":
            cfg = dict(instance_sensitive=not o["nonis"], apply_nms=o["nms"])
            thin = not o["raw"] if fam == "sbd" else name == "city_thin"
            cfg["apply_thinning"] = thin
            if fam == "sbd":
                cfg["scale"] = 1.0
            elif name == "city_raw":
                cfg["scale"] = 0.5 if o["scale"] is None else o["scale"]
            if kind == "reanno":
                cfg["max_dist"] = 0.0075
            else:
                cfg["eval_mode"] = "pre-seal" if o["pre"] else "post-seal"
                cfg["max_dist"] = (0.02 if fam == "sbd" else 0.0035) if o["max_dist"] is None else o["max_dist"]
            S = ev.settings(kind, cfg, thin)
            if S is None:
                expect(res[0] == "exc", lambda: "%s: was accepted" % what)
                for d in ([out] if out else [os.path.join(pred, n) for n in new]):
                    left = [n for n, _ in p16.listing(d) if not n.endswith(".log")] if os.path.isdir(d) else []
                    expect(not left, lambda: "%s: rejected, but wrote %s" % (what, left))
                return "rejected"
        expect(res[0] == "ok", lambda: "%s: %s" % (what, res[1]))
        if out is None:
            expect(len(new) == 1, lambda: "%s: new entries under the predictions: %s" % (what, new))
            out = os.path.join(pred, new[0])
        else:
            expect(not new, lambda: "%s: wrote %s under the predictions" % (what, new))
        expect(not os.path.exists(os.path.join(top, "edge_results")) and set(os.listdir(top)) <= {"o", "x"}, lambda: "%s: wrote %s" % (what, os.listdir(top)))
        thr = o["thresholds"]
        thr = linspace(99 if thr is None else thr) if thr is None or isinstance(thr, int) else list(thr)
        if kind == "bsds":
            split = "val" if o["val"] else "test"
            rows = p17.rows(out)
            names = [n["name"] for n in rows[0]]
            expect(sorted(names) == [split + "/" + n for n in ("ab" if split == "val" else "b")], lambda: "%s: evaluated %s" % (what, names))
            counts = []
            for n in names:
                b = n[-1]
                m = p04.model(np.array(thr), (BSP[b].T if o["flat"] else BSP[b]) / 255.0, [np.array(g, bool) for g in BS[b]], 0.0075 if o["max_dist"] is None else o["max_dist"], not o["raw"], 1 if o["nms"] else 0)
                if m is None:
                    raise NoAnswer("model out of range")
                counts.append([tuple(int(z[i]) for z in m) for i in range(len(thr))])
            row = [float(v) for v in ev.read_rows(os.path.join(out, "eval_bdry.txt"))[0]]
            got = rows + (dict(zip(p13.KEYS, row)),)
            verify(got, thr, names, counts, what)
            return tuple(row)
        cats = list(range(1, ev.NCLS[kind] + 1)) if o["cats"] is None else o["cats"] if isinstance(o["cats"], list) else [o["cats"]]
        return p16.check_saved(out, kind, cats, S, thr, what=what)
    finally:
        shutil.rmtree(top)
        shutil.rmtree(pred)


def check_nothing_in_reach(c):
    """Without a positive tolerance nothing can be matched: refused, never replaced by another tolerance."""
    name, v = c["command"], c["v"]
    r = trees()
    fam = "bsds" if name == "bsds" else "sbd" if name in ("sbd", "reanno") else "city"
    half = name == "city_thin" or c["half"]
    pred = view(os.path.join(r, fam + "_pred" + ("_half" if half else "")))
    top = ds.tmpdir()
    out = os.path.join(top, "o")
    try:
        argv = [os.path.join(r, fam), pred, "--output-path", out, "--thresholds", text(THR), "--nproc", "1"] + ["--max-dist=" + v]
        argv += [] if name == "bsds" else ["--categories", "14"]
        argv += ["--half"] if c["half"] else []
        res = run(name, argv, top)
        tick()
        expect(res[0] != "ok", lambda: "%s %s: was accepted" % (name, " ".join(argv[2:])))
        left = [n for n, _ in p16.listing(out) if not n.endswith(".log")] if os.path.isdir(out) else []
        expect(not left, lambda: "%s %s: ended with an error, but wrote %s" % (name, " ".join(argv[2:]), left))
        return v
    finally:
        shutil.rmtree(top)
        shutil.rmtree(pred)


def verify(got, thr, names, counts, what):
    """Saved rows have six decimals."""
    T = 1.01e-6
    rows, ods, per, ois, auc, ap = p13.model(thr, counts)
    sample, thresh, o = got
    K = ("threshold", "recall", "precision", "f1")
    for s, opts in zip(sample, per):
        expect(any(all(p13.near(s[k], w, T) for k, w in zip(K, x)) for x in opts), lambda: "%s: image row %s, expected %s" % (what, s, [x[:4] for x in opts]))
    expect(len(thresh) == len(thr), lambda: "%s: %d threshold rows, expected %d" % (what, len(thresh), len(thr)))
    for t, w in zip(thresh, rows):
        expect(all(p13.near(t[k], x, T) for k, x in zip(K, w)), lambda: "%s: threshold row %s, expected %s" % (what, t, w))
    expect(any(p13.near(o["ODS_f1"], f, T) and all(p13.near(o[k], x, T) for k, x in zip(p13.KEYS, c)) for c, f in ods), lambda: "%s: ODS %s, expected %s" % (what, o, ods[:2]))
    expect(any(all(p13.near(o[k], x, T) for k, x in zip(p13.KEYS[4:7], c)) for c in ois), lambda: "%s: OIS %s, expected %s" % (what, o, ois[:2]))
    expect(min(auc) - 2e-6 <= o["AUC"] <= max(auc) + 2e-6 and min(ap) - 2e-6 <= o["AP"] <= max(ap) + 2e-6, lambda: "%s: AUC/AP %s, expected %s %s" % (what, o, auc, ap))


NAMES = ["bsds", "sbd", "reanno", "city_raw", "city_thin"]


def build(tier):
    big = tier == "thorough"
    trees()
    for name in NAMES:
        command(name)
    sc = []
    for name in NAMES:
        cs = combos(name, 4 if big else 3)
        sc.append(list_scope("options_" + name, [dict(command=name, opts=o, order=i % 2, slash=i % 3 == 0) for i, o in enumerate(cs)], check, timeout=300,
                             note="all combinations of up to %d options away from the base command line, options before or after the paths" % (4 if big else 3)))
    sc.append(list_scope("no_tolerance", [dict(command=n, v=v, half=h) for n, h in (("bsds", False), ("city_raw", False), ("city_raw", True), ("city_thin", False)) for v in ("0", "0.0", "-0.01", "none", "")],
                         check_nothing_in_reach, timeout=300, note="tolerances that are not positive, where the protocol does not fix one"))
    full = []
    for name in NAMES:
        base = combos(name, 0)[0]
        full.append(dict(command=name, opts=dict(base, thresholds=None), order=0))
        for n in (1, 120, 100):
            full.append(dict(command=name, opts=dict(base, thresholds=n), order=1))
        if name != "bsds":
            full.append(dict(command=name, opts=dict(base, cats=None), order=1))
            full.append(dict(command=name, opts=dict(base, cats=None, nonis=True), order=0))
            full.append(dict(command=name, opts=dict(base, cats=12, thresholds=None, out="default", nproc=None, nonis=True), order=0))
        else:
            full.append(dict(command=name, opts=dict(base, thresholds=None, val=True, nproc=None, out="default"), order=0))
    sc.append(list_scope("defaults", full, check, timeout=300, note="1 to 120 thresholds, all categories, default output"))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="every listed command line is run in its own process through the command's entry point; the files it writes are compared with scores computed by definition for the described evaluation",
                    assumptions=["the datasets distinguish the options; the option values listed stand for others"])
