"""P19: threshold and category specifications."""
import itertools, os, shutil
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, scratch
import dsgen as ds, evenv as ev, p13, p16, p25

NMAX = 400
POOL = [0.5, 0.25, 0.1, 0.9, 0.75, 0.0, 1.0, 1 / 3, 1e-9, 0.5000001, 0.003921568627450981]


def metrics(thr, mod):
    """Threshold rows reported by the score aggregation."""
    from pyEdgeEval.common import binary_label, multi_label
    f = dict(binary=binary_label, multi=multi_label)[mod].calculate_metrics
    n = []
    def single(s, **kw):
        t = kw.get("thresholds")
        n.append(t)
        k = len(p25.linspace(thr)) if isinstance(thr, int) else 1 if isinstance(thr, float) else len(thr)
        return tuple(np.ones(k) for _ in range(4))
    s, t, o = f(single, thr, [dict(name="a")], nproc=1)
    return [float(r["threshold"]) for r in t]


def same(got, want, what, tol=0.0):
    got = [float(v) for v in got]
    expect(len(got) == len(want) and all(abs(a - b) <= tol for a, b in zip(got, want)), lambda: "%s means %s, expected %s" % (what, got[:12], list(want)[:12]))


def check_count(n):
    from pyEdgeEval.common.utils import check_thresholds
    want = p25.linspace(n)
    g = check_thresholds(n)
    expect(isinstance(g, np.ndarray) and g.ndim == 1, "%d thresholds: not a 1-D array" % n)
    same(g, want, "threshold count %d" % n, 1e-12)
    expect(all(0 < v < 1 for v in g) and all(a < b for a, b in zip(g, g[1:])), "threshold count %d: not increasing inside (0, 1)" % n)
    g[:] = 7
    same(check_thresholds(n), want, "threshold count %d, asked again" % n, 1e-12)
    for m in ("binary", "multi"):
        same(metrics(n, m), want, "%s score rows for threshold count %d" % (m, n), 1e-12)
        tick()
    tick(2)
    return n


def check_values(c):
    from pyEdgeEval.common.utils import check_thresholds
    v = list(c["values"])
    want = list(v)
    arg = {"list": lambda: list(v), "array": lambda: np.array(v), "f32": lambda: np.array(v, np.float32), "strided": lambda: np.array(v + v)[:len(v)][::1], "rev": lambda: np.array(v[::-1])[::-1], "mixed": lambda: [int(x) if x in (0, 1) else x for x in v]}[c["as"]]()
    if c["as"] == "f32":
        want = [float(np.float32(x)) for x in v]
    copy = np.array(arg, copy=True)
    g = check_thresholds(arg)
    expect(isinstance(g, np.ndarray) and g.ndim == 1, "%s: not a 1-D array" % (c,))
    same(g, want, "thresholds %s as %s" % (v, c["as"]))
    expect(np.array_equal(copy, np.array(arg)), "argument modified")
    if v:
        for m in ("binary", "multi"):
            same(metrics(arg, m), want, "%s score rows for %s as %s" % (m, v, c["as"]))
            tick()
    tick()
    return (c["as"], len(v))


def check_float(v):
    from pyEdgeEval.common.utils import check_thresholds
    same(check_thresholds(v), [v], "threshold %r" % v)
    for m in ("binary", "multi"):
        same(metrics(v, m), [v], "%s score rows for %r" % (m, v))
    tick(3)
    return v


BAD = {"None": None, "str": "0.5", "str list": "[0.5]", "tuple": (0.5, 0.7), "set": {0.5}, "dict": {0.5: 1}, "complex": 0.5j, "0-d array": np.array(0.5), "2-d array": np.array([[0.5, 0.7]]), "1x1 array": np.array([[0.5]]),
       "column": np.array([[0.2], [0.4]]), "3-d": np.zeros((2, 2, 2)), "nested list": [[0.5, 0.7]], "nested rows": [[0.1], [0.2]], "bytes": b"5", "range": range(3), "generator": (x for x in (0.1, 0.2)), "object": object(), "empty string": "", "type": float}


def check_bad(k):
    from pyEdgeEval.common.utils import check_thresholds
    from pyEdgeEval.common import binary_label, multi_label
    v = BAD[k]
    try:
        g = check_thresholds(v)
    except Exception:
        g = None
    expect(g is None, lambda: "thresholds given as %s are accepted as %r" % (k, g))
    for m in (binary_label, multi_label):
        def single(s, **kw):
            return tuple(np.ones(2) for _ in range(4))
        try:
            m.calculate_metrics(single, v, [dict(name="a")], nproc=1)
            ok = False
        except Exception:
            ok = True
        expect(ok, lambda: "scores with thresholds given as %s: accepted" % k)
        tick()
    tick()
    return k


# ------------------------------------------------------------------ command line
GOOD_T = {"5": 5, " 5 ": 5, "1": 1, "[0.5]": [0.5], "[0.3,0.6]": [0.3, 0.6], "[0.6, 0.3]": [0.6, 0.3], " [ 0.3 ,0.6 , 0.9 ] ": [0.3, 0.6, 0.9], "[1e-1, .5]": [0.1, 0.5], "12": 12, "007": 7}
BAD_T = ["abc", "[a, b]", "[0.3", "0.3]", "0.3,0.5", "", "(0.1,0.2)", "[]", "[0.3;0.5]", "[0.3 0.5]", "[0.3,,0.5]", "{0.3}", "[[0.3]]", "None", "0.3 0.5", "[0.3,]", "5 6", "--", "[", "]", "2.5", "5.0", "0.5", "1e1", "inf", "nan"]
GOOD_C = {"14": [14], " 3 ": [3], "[14]": [14], "[3,14]": [3, 14], "[14, 3]": [14, 3], " [ 3 ,1, 14 ] ": [3, 1, 14], "1": [1], "last": None, "[1, last]": None}
BAD_C = ["abc", "[1.5]", "1-3", "1,3", "[1, b]", "", "[", "[]", "(1,2)", "1.0", "[1,,2]", "[[1]]", "road", "{1}", "[1 2]", "all"]
OUT_C = ["0", "-1", "next", "[1, next]", "[next, 1]", "[0, 3]", "[3, -2]", "1000", "[3, 0, 14]"]


def spell(s, K):
    return s.replace("last", str(K)).replace("next", str(K + 1))


def paths(name):
    r = p25.trees()
    kind = name if name in ("bsds", "sbd", "reanno") else "half" if name == "city_thin" else "city"
    fam = "bsds" if kind == "bsds" else "sbd" if kind in ("sbd", "reanno") else "city"
    return kind, os.path.join(r, fam), os.path.join(r, fam + "_pred" + ("_half" if kind == "half" else ""))


def produced(d):
    return [n for n, _ in p16.listing(d) if not n.endswith(".log")] if os.path.isdir(d) else []


def check_cli(c):
    name, out = c["command"], ds.tmpdir()
    kind, root, src = paths(name)
    K = ev.NCLS.get(kind)
    pred = p25.view(src)
    argv = [root, pred, "--nproc", "1"]
    if c["given"]:
        argv += ["--output-path", out]
    t = c.get("thresholds", "[0.3, 0.6, 0.75]")
    argv += ["--thresholds=" + t]
    if kind != "bsds":
        argv += ["--categories=" + spell(c.get("categories", "[3, 14]"), K)]
    before = set(os.listdir(pred))
    try:
        res = p25.run(name, argv, out)
        tick()
        new = sorted(set(os.listdir(pred)) - before)
        dirs = [out] if c["given"] else [os.path.join(pred, n) for n in new]
        what = "%s %s" % (name, argv[4:])
        if c["bad"]:
            left = sum([produced(d) for d in dirs], [])
            expect(not left, lambda: "%s: malformed or out of range, but wrote %s" % (what, left))
            return "stopped"
        expect(res[0] == "ok", lambda: "%s: %s" % (what, res[1]))
        thr = GOOD_T.get(t, [0.3, 0.6, 0.75])
        thr = p25.linspace(thr) if isinstance(thr, int) else thr
        d, = dirs
        if kind == "bsds":
            same([float(r[0]) for r in ev.read_rows(os.path.join(d, "eval_bdry_thr.txt"))], thr, what, 1e-6)
            return len(thr)
        cats = GOOD_C.get(c.get("categories"), [3, 14])
        if cats is None:
            cats = [K] if c["categories"] == "last" else [1, K]
        thin = kind != "city"
        cfg = dict(eval_mode="post-seal", scale=0.5 if kind == "city" else 1.0, apply_thinning=thin, max_dist=dict(sbd=0.02, reanno=0.0075, city=0.0035, half=0.0035)[kind])
        if kind == "reanno":
            cfg.pop("eval_mode")
        return p16.check_saved(d, kind, cats, ev.settings(kind, cfg, thin), thr, what=what)
    finally:
        shutil.rmtree(out)
        shutil.rmtree(pred)


def build(tier):
    big = tier == "thorough"
    p25.trees()
    sc = [Scope("count", 2000 if big else NMAX, lambda i: i + 1, check_count, note="every threshold count up to %d" % (2000 if big else NMAX))]
    seqs = [s for n in range(1, 4 if not big else 5) for s in itertools.product(POOL[:7 if n > 2 else None], repeat=n)]
    sc.append(list_scope("values", [dict(values=s, **{"as": a}) for s in seqs for a in ("list", "array", "f32", "strided", "rev", "mixed")], check_values, note="every sequence of listed values, repeated and unordered ones too, as lists and arrays"))
    sc.append(list_scope("single", [i / 256 for i in range(257)] + POOL, check_float, note="single floats"))
    sc.append(list_scope("rejected", list(BAD), check_bad, note="other types and shapes"))
    cases = []
    for name in p25.NAMES:
        for i, t in enumerate(GOOD_T):
            cases.append(dict(command=name, thresholds=t, bad=False, given=i % 2 == 0))
        for t in BAD_T:
            cases += [dict(command=name, thresholds=t, bad=True, given=g) for g in (True, False)]
        if name == "bsds":
            continue
        for i, k in enumerate(GOOD_C):
            cases.append(dict(command=name, categories=k, bad=False, given=i % 2 == 0))
        for k in BAD_C + OUT_C:
            cases += [dict(command=name, categories=k, bad=True, given=g) for g in (True, False)]
        for k, t in [(a, b) for a in BAD_C[:4] + OUT_C[:4] for b in BAD_T[:3] + ["5"]] + [("[3]", b) for b in BAD_T[:6]]:
            cases.append(dict(command=name, categories=k, thresholds=t, bad=True, given=True))
    sc.append(list_scope("command_line", cases, check_cli, timeout=300, note="well-formed, malformed and out-of-range strings for every command"))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="every specification is given to the real threshold handling, to both score aggregations and to the command entry points; rows and files are compared with the documented meaning",
                    assumptions=["threshold counts are positive"])
