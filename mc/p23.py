"""P23: precision-recall plots."""
import contextlib, io, itertools, os, re, shutil
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch
import dsgen as ds

# (recall, precision) points per algorithm; F and thresholds follow
CURVES = {
    "one": [(0.5, 0.5)],
    "two": [(0.25, 1.0), (0.75, 0.5)],
    "three": [(0.9, 0.1), (0.5, 0.625), (0.125, 0.875)],
    "drop": [(1.0, 0.25), (0.5, 0.5), (0.000999, 1.0), (0.0, 0.0)],
    "edge": [(0.001, 1.0), (0.0, 0.5), (0.3, 0.3)],
    "same": [(0.4, 0.6), (0.4, 0.6), (0.4, 0.6)],
    "none": [(0.0, 0.0), (0.0, 0.0)],
    "gone": [(0.0005, 1.0)],
    "long": [(1 - k / 20, 0.2 + k / 30) for k in range(20)],
    "flat": [(0.1, 0.7), (0.6, 0.7), (0.8, 0.7)],
}
ANAME = "algorithms/with long names/and variants/alg%d"
ODS = [0.1, 0.402, 0.7777, 0.9]


def fm(p, r):
    return 2 * p * r / (p + r) if p + r else 0.0


def overall(i, ods):
    return dict(ODS_threshold=0.31 + i / 100, ODS_recall=0.21 + i / 100, ODS_precision=0.61 - i / 100, ODS_f1=ods, OIS_recall=0.33 + i / 100, OIS_precision=0.44 + i / 100, OIS_f1=0.55 + 0.011 * i, AUC=0.66 + i / 100, AP=0.123 + 0.1 * i)


def saved(root, how, curve, i, ods):
    pts = CURVES[curve]
    T = len(pts)
    rows = [dict(threshold=(k + 1) / (T + 1), recall=r, precision=p, f1=fm(p, r)) for k, (r, p) in enumerate(pts)]
    o = overall(i, ods)
    d = os.path.join(root, "%s_%d" % (how, i))
    if how == "binary":
        from pyEdgeEval.common.binary_label import save_results
        os.makedirs(d, exist_ok=True)
        save_results(root=d, sample_metrics=[dict(name="x", threshold=0.5, recall=0.5, precision=0.5, f1=0.5)], threshold_metrics=rows, overall_metric=o)
    else:
        from pyEdgeEval.common.multi_label import save_category_results
        save_category_results(root=d, category=3, sample_metrics=[dict(name="x", threshold=0.5, recall=0.5, precision=0.5, f1=0.5)], threshold_metrics=rows, overall_metric=o)
        d = os.path.join(d, "class_003")
    return os.path.join(d, "eval_bdry_thr.txt"), os.path.join(d, "eval_bdry.txt"), o


COLORS = [(1.0, 0.0, 0.5), (0.0, 0.25, 1.0), (0.5, 0.5, 0.0), (0.1, 0.9, 0.9), (0.7, 0.1, 0.1)] + [(0.03 * k, 1 - 0.05 * k, 0.4 + 0.02 * k) for k in range(1, 20)]
LINE = re.compile(r"ODS=(\S+?),? OIS=(\S+?),? AP=(\S+?),? .*?- (.*)$")


def check(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from pyEdgeEval.visualization import pr_curve
    from pyEdgeEval.common.binary_label import visualize
    import warnings
    top = c.get("top") or ds.tmpdir()
    plt.close("all")
    try:
        algs, want = [], {}
        n = len(c["curves"])
        for i, (cv, ods) in enumerate(zip(c["curves"], c["ods"])):
            t, o, vals = saved(top, c["saved"], cv, i, ods)
            algs.append(pr_curve.AlgorithmInfo(ANAME % i, t, o))
        names = None if c["names"] is None else ["%s %d [x]" % ("abcd"[i % 4], i) for i in range(n)] if c["names"] == 1 else ["a rather long name of an algorithm (with {braces}, 50% of it) - " + "%03d \u00e4_%s" % ((n - i) * 3, "y" * (i * 40 % 120)) for i in range(n)]
        shown = names or [ANAME % i for i in range(n)]
        kw = {}
        if c["mod"] == "pr":
            f = pr_curve.plot_pr_curve
        else:
            f = visualize.plot_pr_curve
            kw["plot_human"] = c["mod"] == "human"
        human = c["mod"] == "human"
        cols = None
        if c["colors"]:
            cols = COLORS[:n + human]
            kw["colors"] = cols if c["colors"] == "list" else np.array(cols)
        path = os.path.join(top, "out.png") if c["save"] else None
        buf = io.StringIO()
        given = list(algs), list(names) if names else None
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(algs, names=names, save_path=path, **kw)
        tick()
        what = "%s of %s with ODS %s, names %s, colors %s" % (c["mod"], c["curves"], c["ods"], shown, c["colors"])
        expect(algs == given[0] and (names is None or names == given[1]), what + ": arguments modified")
        expect(path is None or os.path.getsize(path) > 0, what + ": figure not saved")
        expect(len(plt.get_fignums()) == 1, "%d figures" % len(plt.get_fignums()))
        ax = plt.gcf().axes[0]
        leg = ax.get_legend()
        texts = [t.get_text() for t in leg.get_texts()]
        handles = list(leg.legend_handles)
        expect(len(handles) == len(texts), "legend")
        if human:
            expect(texts and "Human" in texts[0], lambda: "%s: legend %s" % (what, texts))
            texts, handles = texts[1:], handles[1:]
        expect(len(texts) == n, lambda: "%s: legend %s" % (what, texts))
        seen, fs = set(), []
        used = []
        for t, h in zip(texts, handles):
            m = re.match(r"\[F=([^\]]+)\] (.*)$", t, re.S)
            expect(m and m.group(2) in shown, lambda: "%s: legend entry %r" % (what, t))
            i = shown.index(m.group(2))
            expect(i not in seen, lambda: "%s: legend %s" % (what, texts))
            seen.add(i)
            fs.append(c["ods"][i])
            expect(abs(float(m.group(1)) - c["ods"][i]) <= 0.00501, lambda: "%s: legend entry %r, ODS F is %s" % (what, t, c["ods"][i]))
            col = to_rgba(h.get_color())
            if cols:
                expect(np.allclose(col, to_rgba(cols[i]), atol=1e-6), lambda: "%s: %s has colour %s, requested %s" % (what, shown[i], col, cols[i]))
            lines = [l for l in ax.lines if np.allclose(to_rgba(l.get_color()), col, atol=1e-9) and l.get_linewidth() == h.get_linewidth() and l not in used]
            pts = [(r, p) for r, p in CURVES[c["curves"][i]] if round(r, 6) >= 1e-3]
            match = [l for l in lines if len(l.get_xdata()) == len(pts) and np.allclose(l.get_xdata(), [r for r, _ in pts], atol=1e-6) and np.allclose(l.get_ydata(), [p for _, p in pts], atol=1e-6)]
            expect(match, lambda: "%s: the curve in the colour of %s has points %s, saved are %s" % (what, shown[i], [list(zip(l.get_xdata(), l.get_ydata())) for l in lines], pts))
            used.append(match[0])
        expect(fs == sorted(fs, reverse=True), lambda: "%s: legend order %s" % (what, texts))
        if n > 1 and not cols:
            expect(len({to_rgba(l.get_color()) for l in used}) == n, what + ": curves share a colour")
        printed = {}
        for l in buf.getvalue().split("\n"):
            m = LINE.search(l)
            if m:
                printed[m.group(4)] = [float(x) for x in m.groups()[:3]]
        expect(sorted(printed) == sorted(shown), lambda: "%s: printed %s" % (what, buf.getvalue()))
        for i, s in enumerate(shown):
            o = overall(i, c["ods"][i])
            expect(all(abs(a - o[k]) <= 0.000511 for a, k in zip(printed[s], ("ODS_f1", "OIS_f1", "AP"))), lambda: "%s: printed %s for %s, saved %s" % (what, printed[s], s, o))
        expect(ax.get_xlim() == (0, 1) and ax.get_ylim() == (0, 1), "axes limits")
        return (tuple(texts), tuple(len(l.get_xdata()) for l in used))
    finally:
        plt.close("all")
        if "top" not in c:
            shutil.rmtree(top)


def check_history(c):
    """Evaluations that write to the same directories, each plotted afterwards."""
    top = ds.tmpdir()
    try:
        return tuple(check(dict(c, curves=cv, ods=o, save=i % 2 == 1, top=top)) for i, (cv, o) in enumerate(c["rounds"]))
    finally:
        shutil.rmtree(top)


def check_bad(c):
    from pyEdgeEval.visualization import pr_curve
    from pyEdgeEval.common.binary_label import visualize
    import matplotlib.pyplot as plt
    top = ds.tmpdir()
    try:
        t, o, _ = saved(top, "binary", "two", 0, 0.5)
        A = pr_curve.AlgorithmInfo
        algs = {"empty": [], "missing_thr": [A("a", t + "x", o)], "missing_overall": [A("a", t, o + "x")], "names": [A("a", t, o)], "colors": [A("a", t, o)], "second": [A("a", t, o), A("b", t + "x", o)]}[c["bad"]]
        kw = {"names": dict(names=["a", "b"]), "colors": dict(colors=COLORS[:3])}.get(c["bad"], {})
        for f in (pr_curve.plot_pr_curve, visualize.plot_pr_curve):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    f(algs, **kw)
                ok = False
            except Exception:
                ok = True
            expect(ok, "%s is accepted" % c["bad"])
            tick()
        return c["bad"]
    finally:
        plt.close("all")
        shutil.rmtree(top)


def build(tier):
    big = tier == "thorough"
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot
    import pyEdgeEval.visualization.pr_curve, pyEdgeEval.common.binary_label.visualize
    sc = []
    opt = [("saved", ["binary", "multi"]), ("mod", ["pr", "human", "plain"]), ("names", [None, 1, 2]), ("colors", [None, "list", "array"])]
    def add(name, curves, ods, stride=1, save=False, note=""):
        ax = [("curves", curves), ("ods", ods)] + opt
        s = product_scope(name, ax, lambda c: check(dict(c, save=save)), note=note)
        if stride > 1:
            full = s
            s = Scope(name, (full.n + stride - 1) // stride, lambda i: full.case(i * stride), full.check, note=note + " (every %dth)" % stride)
        sc.append(s)
    add("one", [(k,) for k in CURVES], [(0.5,), (0.0,), (1.0,), (0.333333,)])
    add("two", list(itertools.product(CURVES, repeat=2)), list(itertools.permutations(ODS[:3], 2)) + [(0.5, 0.5)], 1 if big else 17, note="pairs of curves with every order of scores")
    add("three", list(itertools.permutations(["one", "two", "long", "none", "drop"], 3)), list(itertools.permutations(ODS[1:], 3)), 1 if big else 19, note="triples of curves with every order of scores")
    add("four", list(itertools.permutations(["one", "two", "three", "drop"], 4))[::5], list(itertools.permutations(ODS, 4)), 1 if big else 31)
    add("saved_figure", [("two",), ("one", "three"), ("none", "long")], [(0.3, 0.6), (0.6, 0.3)], 5, save=True)
    rounds = [(("two",), (0.3,)), (("two",), (0.8,)), (("long",), (0.3,)), (("none", "two"), (0.2, 0.1)), (("three", "two"), (0.1, 0.2))]
    sc.append(product_scope("histories", [("rounds", list(itertools.product(rounds, repeat=2)) + (list(itertools.product(rounds, repeat=3)) if big else []))] + opt[:1] + [("mod", ["pr", "plain"]), ("names", [None, 1]), ("colors", [None])], check_history, note="directories that are evaluated and plotted again"))
    cs = list(CURVES)
    many = [tuple(cs[(i * k + k) % len(cs)] for i in range(n)) for n in (5, 6, 7, 8, 9, 10, 12, 16) for k in (1, 3)]
    sc.append(list_scope("many", [dict(curves=m, ods=tuple(round(((i * 7 + o) % len(m)) / len(m) * 0.9 + 0.05, 6) for i in range(len(m))), save=False, saved=s, mod=d, names=nm, colors=co) for j, m in enumerate(many) for o in (0, 1) for d in ("pr", "human", "plain") for s, nm, co in ((("binary", "multi")[j % 2], None, None), ("binary", 1, None), ("multi", 2, None), ("multi", None, "list"))], check, note="up to 16 algorithms"))
    sc.append(list_scope("rejected", [dict(bad=b) for b in ("empty", "missing_thr", "missing_overall", "names", "colors", "second")], check_bad))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="result files written by the real savers are plotted; curves, colours, legend and printed figures of the resulting axes are compared with the saved tables",
                    assumptions=["algorithms have different names"])
