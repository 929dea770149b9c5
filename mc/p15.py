"""P15: saved reports."""
import itertools, os, re, shutil, tempfile
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch

VALS = [0.0, 1.0, 0.5, 1 / 3, 0.123456, 0.1234564, 0.1234567, 0.9999999, 0.0000004, 0.01]
OKEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP"]
NUM = re.compile(r"^\d+\.\d{6}$")


def val(k, kind):
    v = VALS[k % len(VALS)]
    return [float, np.float64, lambda x: np.array([x])[0]][kind](v)


def results(c, seed, kind=0):
    """Distinct values in every cell, so that a swapped column shows."""
    k = [seed]
    def nxt():
        k[0] += 1
        return val(k[0] * 7 + k[0] // 10, kind)
    names = ["2008_000001", "a b", "x/y_z", "{name}{f1}", "n" * 30, "100007", "a{{b}}", "50%s%d", "\u00f1_\u65e5\u672c", "-", "#1", "0"]
    s = [dict(name=names[i % len(names)] + ("" if i < len(names) else str(i)), threshold=nxt(), recall=nxt(), precision=nxt(), f1=nxt()) for i in range(c[0])]
    t = [dict(threshold=nxt(), recall=nxt(), precision=nxt(), f1=nxt()) for _ in range(c[1])]
    o = {kk: nxt() for kk in OKEYS}
    return s, t, o


def lines(path):
    expect(os.path.isfile(path), lambda: "%s was not written" % os.path.basename(path))
    txt = open(path).read()
    return [l for l in txt.split("\n") if l.strip()]


def nums(fields, want, where):
    expect(len(fields) == len(want), lambda: "%s: %d values, expected %d" % (where, len(fields), len(want)))
    for f, w in zip(fields, want):
        expect(NUM.match(f) and abs(float(f) - float(w)) <= 5.0001e-7, lambda: "%s: %r where %r was computed (row %s)" % (where, f, float(w), fields))


def verify(d, res, where):
    s, t, o = res
    K = ["threshold", "recall", "precision", "f1"]
    L = lines(os.path.join(d, "eval_bdry_img.txt"))
    expect(len(L) == len(s), lambda: "%s: %d image rows for %d images" % (where, len(L), len(s)))
    for l, r in zip(L, s):
        f = l.rstrip().rsplit(None, 4)
        expect(len(f) == 5 and f[0] == r["name"], lambda: "%s: row %r for image %r" % (where, l, r["name"]))
        nums(f[1:], [r[k] for k in K], where + ": image row")
    L = lines(os.path.join(d, "eval_bdry_thr.txt"))
    expect(len(L) == len(t), lambda: "%s: %d threshold rows for %d thresholds" % (where, len(L), len(t)))
    for l, r in zip(L, t):
        nums(l.split(), [r[k] for k in K], where + ": threshold row")
    L = lines(os.path.join(d, "eval_bdry.txt"))
    expect(len(L) == 1, where + ": overall file has %d rows" % len(L))
    nums(L[0].split(), [o[k] for k in OKEYS], where + ": overall row")


def tree(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


FILES = ["eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt"]


def save(op, root):
    """op = (kind, category, (n_img, n_thr), seed, valuekind)"""
    from pyEdgeEval.common import binary_label, multi_label
    kind, cat, size, seed, vk = op
    res = results(size, seed, vk)
    import copy
    keep = copy.deepcopy(res)
    if kind == "bin":
        binary_label.save_results(root, *res)
        d = root
    elif kind == "cat":
        multi_label.save_category_results(root, cat, *res)
        d = os.path.join(root, "class_%03d" % cat)
    elif kind == "kwcat":
        multi_label.save_category_results(root=root, category=cat, sample_metrics=res[0], threshold_metrics=res[1], overall_metric=res[2])
        d = os.path.join(root, "class_%03d" % cat)
    elif kind == "parts":
        m = [binary_label, multi_label][seed % 2]
        os.makedirs(root, exist_ok=True)
        m.save_overall_metric(root, res[2]), m.save_threshold_metrics(root, res[1]), m.save_sample_metrics(root, res[0])
        d = root
    expect(res == keep, "the results given were modified")
    return d, res


def check_history(c):
    """A sequence of saves: at the end every directory shows exactly its last save."""
    top = tempfile.mkdtemp(dir=scratch())
    try:
        root = {"exists": top, "new": os.path.join(top, "out"), "nested": os.path.join(top, "a", "b c", "out"), "slash": os.path.join(top, "out") + "/"}[c["root"]]
        cwd = os.getcwd()
        if c["root"] == "nested" and c["ops"][0][0] == "parts":
            pass
        state = {}
        for op in c["ops"]:
            d, res = save(op, root)
            state[os.path.normpath(d)] = res
            tick()
        for d, res in state.items():
            verify(d, res, "after %s" % [o[:3] for o in c["ops"]])
        want = sorted(os.path.relpath(os.path.join(d, f), top) for d in state for f in FILES)
        expect(tree(top) == want, lambda: "files written: %s, expected %s" % (tree(top), want))
    finally:
        shutil.rmtree(top)
    return tuple(sorted((os.path.relpath(d, top), len(r[0]), len(r[1])) for d, r in state.items()))


def check_relative(c):
    """A relative root, as on the command line."""
    top = tempfile.mkdtemp(dir=scratch())
    cwd = os.getcwd()
    try:
        os.chdir(top)
        d, res = save(c["op"], c["root"])
        verify(os.path.join(top, d), res, "relative root %r" % c["root"])
        tick()
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)
    return len(res[0])


def check_pretty(c):
    from pyEdgeEval.common import multi_label
    top = tempfile.mkdtemp(dir=scratch())
    try:
        if c["before"]:
            multi_label.save_pretty_metrics(top, "X" * 5000, "Y" * 5000)
        multi_label.save_pretty_metrics(root_dir=top, class_table=c["cls"], summary_table=c["sm"])
        tick()
        got = open(os.path.join(top, "results.txt")).read()
        i = got.find(c["cls"])
        expect(i >= 0 and got.find(c["sm"], i + len(c["cls"])) >= 0, lambda: "results.txt %r lacks the tables %r, %r" % (got, c["cls"], c["sm"]))
        expect(got.count("XX") == 0, "old results remain")
    finally:
        shutil.rmtree(top)
    return len(got)


def check_values(c):
    """Every value of a fine grid of (0, 1] in every column."""
    top = tempfile.mkdtemp(dir=scratch())
    try:
        g = [(c["lo"] + i) / 2000 + c["off"] for i in range(100)]
        from pyEdgeEval.common import binary_label
        K = ["threshold", "recall", "precision", "f1"]
        t = [dict(zip(K, (g[i], g[-1 - i], g[i // 2], g[(i * 37) % 100]))) for i in range(100)]
        s = [dict(r, name="i%d" % i) for i, r in enumerate(t[::-1])]
        o = dict(zip(OKEYS, g[3:12]))
        binary_label.save_results(top, s, t, o)
        verify(top, (s, t, o), "value grid")
        tick(9)
    finally:
        shutil.rmtree(top)
    return round(sum(g), 6)


def build(tier):
    big = tier == "thorough"
    sizes = [(1, 1), (3, 2), (2, 5), (12, 99)]
    ops = [(k, c, s, i * 13 + j, (i + j) % 3) for j, (k, c) in enumerate([("bin", 0), ("cat", 1), ("kwcat", 2), ("cat", 19), ("parts", 0), ("cat", 100)]) for i, s in enumerate(sizes)]
    far = [(300, 2), (2, 300), (1001, 999)]
    fops = [(k, c, s, i * 13 + j, (i + j) % 3) for j, (k, c) in enumerate([("bin", 0), ("cat", 7), ("kwcat", 99), ("parts", 0), ("cat", 999)]) for i, s in enumerate(far)]
    sc = [product_scope("large", [("root", ["new", "nested"]), ("ops", [(a,) for a in fops] + [(a, b) for a in fops for b in (fops[0], ops[0], ops[4])] + [(b, a) for a in fops for b in (fops[2], ops[3])])], check_history, note="up to 1001 images and 999 thresholds, saved over other results"),
          product_scope("sequences", [("root", ["exists", "new", "nested", "slash"]), ("ops", [o for n in (1, 2) for o in itertools.product(ops, repeat=n)] + (list(itertools.product(ops[::3], repeat=3)) if not big else list(itertools.product(ops, repeat=3))))], check_history, note="every sequence of up to 3 saves (sizes, categories, entry points) into one directory"),
          product_scope("relative", [("root", [".", "out", "a/b", "./x/"]), ("op", ops)], check_relative),
          product_scope("pretty", [("before", [0, 1]), ("cls", ["+-+\n|a|\n+-+", "{x} %s", "class table"]), ("sm", ["+-+\n|b|\n+-+", "{0}", "sum"])], check_pretty),
          product_scope("values", [("lo", range(0, 1900, 95)), ("off", [0, 1e-7, 4.9e-7, 5.1e-7])], check_values, note="values over a fine grid of [0, 1]")]
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="every sequence of save operations from the listed set is executed in a fresh directory; the files are parsed back and compared with what was given",
                    assumptions=["values are in [0, 1] as scores are; result lists are non-empty"])
