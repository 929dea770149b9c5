"""P13: dataset scores from per-image counts."""
import itertools
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick

EPS = 1e-9


def div(a, b):
    return a / b if b else 0.0


def fm(p, r):
    return 2 * p * r / (p + r) if p + r else 0.0


def model(thr, counts):
    """counts[image][threshold] = (cr, sr, cp, sp).  Everything from the definitions, in plain Python.

    An image's best threshold is the first one listed with the best F; values of F that are equal only up
    to rounding are alternatives."""
    T = len(thr)
    tot = [[sum(im[t][k] for im in counts) for k in range(4)] for t in range(T)]
    rec = [div(c[0], c[1]) for c in tot]
    pre = [div(c[2], c[3]) for c in tot]
    rows = [(thr[t], rec[t], pre[t], fm(pre[t], rec[t])) for t in range(T)]
    # ODS: candidates on the interpolated curve
    cand = [(thr[0], rec[0], pre[0])]
    for i in range(1, T):
        for s in range(101):
            d = s / 100
            cand.append(tuple(b * d + a * (1 - d) for a, b in ((thr[i - 1], thr[i]), (rec[i - 1], rec[i]), (pre[i - 1], pre[i]))))
    fs = [fm(p, r) for _, r, p in cand]
    best = max(fs)
    ods = [(c, f) for c, f in zip(cand, fs) if f >= best - EPS]
    # OIS: every choice of a best threshold per image
    per = []
    for im in counts:
        sc = [(thr[t], div(c[0], c[1]), div(c[2], c[3]), fm(div(c[2], c[3]), div(c[0], c[1])), c) for t, c in enumerate(im)]
        m = max(s[3] for s in sc)
        opts, seen = [], set()
        for s in sc:
            k = s[1:3] if s[3] else 0
            if s[3] >= m - EPS and k not in seen:
                seen.add(k)
                opts.append(s)
        per.append(opts)
    sums = {(0, 0, 0, 0)}
    for opts in per:
        sums = {tuple(a + b for a, b in zip(s, o[4])) for s in sums for o in opts}
    ois = []
    for s in sums:
        r, p = div(s[0], s[1]), div(s[2], s[3])
        ois.append((r, p, fm(p, r)))
    # AUC
    first = {}
    for r, p in zip(rec, pre):
        first.setdefault(r, p)
    xs = sorted(first)
    def area(e):
        if len(xs) < 2:
            return 0.0
        tot = 0.0
        for k in range(100):
            g = k / 100 + e
            if g < xs[0] or g > xs[-1]:
                continue
            for a, b in zip(xs, xs[1:]):
                if a <= g <= b:
                    tot += first[a] + (first[b] - first[a]) * (g - a) / (b - a)
                    break
        return tot * 0.01
    auc = [area(e) for e in (-1e-10, 0, 1e-10)]
    ap = [sum(max([p for r, p in zip(rec, pre) if r >= k / 100 + e], default=0.0) for k in range(101)) / 101 for e in (-1e-10, 1e-10)]
    return rows, ods, per, ois, auc, ap


def near(a, b, e=1e-9):
    return abs(float(a) - float(b)) <= e


KEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP"]


def verify(got, thr, names, counts, what, tol=1e-9):
    rows, ods, per, ois, auc, ap = model(thr, counts)
    sample, thresh, overall = got
    expect(len(sample) == len(names) and [s["name"] for s in sample] == names, lambda: "%s: per-image rows are %s for images %s" % (what, [s["name"] for s in sample], names))
    for s, opts in zip(sample, per):
        g = [float(s[k]) for k in ("threshold", "recall", "precision", "f1")]
        expect(any(all(near(a, b, tol) for a, b in zip(g, o)) for o in opts), lambda: "%s: image %s is reported as (thr, rec, prec, F) %s, its best is %s" % (what, s["name"], g, [o[:4] for o in opts]))
    expect(len(thresh) == len(thr), lambda: "%s: %d threshold rows for %d thresholds" % (what, len(thresh), len(thr)))
    for t, r in zip(thresh, rows):
        g = [float(t[k]) for k in ("threshold", "recall", "precision", "f1")]
        expect(all(near(a, b, tol) for a, b in zip(g, r)), lambda: "%s: threshold row (thr, rec, prec, F) %s, expected %s" % (what, g, r))
    o = {k: float(overall[k]) for k in KEYS}
    expect(all(-EPS <= o[k] <= 1 + EPS for k in KEYS[1:]), lambda: "%s: score outside [0, 1]: %s" % (what, o))
    expect(any(near(o["ODS_f1"], f) and near(o["ODS_threshold"], c[0]) and near(o["ODS_recall"], c[1]) and near(o["ODS_precision"], c[2]) for c, f in ods),
           lambda: "%s: ODS (thr, rec, prec, F) = %s, expected %s" % (what, [o[k] for k in KEYS[:4]], ods[:3]))
    expect(any(near(o["OIS_recall"], r) and near(o["OIS_precision"], p) and near(o["OIS_f1"], f) for r, p, f in ois),
           lambda: "%s: OIS (rec, prec, F) = %s, expected %s" % (what, [o[k] for k in KEYS[4:7]], ois[:3]))
    expect(min(auc) - 1e-7 <= o["AUC"] <= max(auc) + 1e-7, lambda: "%s: AUC %r, expected %r" % (what, o["AUC"], auc[1]))
    expect(min(ap) - 1e-9 <= o["AP"] <= max(ap) + 1e-9, lambda: "%s: AP %r, expected %r" % (what, o["AP"], ap))
    expect(all(r[3] <= o["ODS_f1"] + EPS for r in rows), "%s: a threshold's F exceeds ODS" % what)
    return o


def fns():
    from pyEdgeEval.common import binary_label, multi_label
    return [("binary", binary_label.calculate_metrics), ("multi", multi_label.calculate_metrics)]


NAMES = ["b/2", "a 1", "10", "Z"] + ["s%d" % ((k * 37) % 1000) for k in range(300)]


def run(thr, thr_arg, counts, dt=float, which=None, extra=True):
    names = NAMES[:len(counts)]
    out = []
    for tag, f in fns():
        if which and tag != which:
            continue
        table = {n: tuple(np.array([c[k] for c in im]).astype(dt) for k in range(4)) for n, im in zip(names, counts)}
        samples = [dict(name=n, category=3, thresholds=99) for n in names]
        calls = []
        def single(s, **kw):
            calls.append(s["name"])
            return tuple(a.copy() for a in table[s["name"]])
        got = f(single, thr_arg, samples, nproc=1)
        tick()
        expect(calls == names, lambda: "images evaluated: %s" % calls)
        expect(samples == [dict(name=n, category=3, thresholds=99) for n in names], "the samples were modified")
        o = verify(got, thr, names, counts, "%s, thresholds %s, counts %s" % (tag, thr, counts if len(thr) < 6 else "(family)"))
        out.append(got)
        if extra and len(counts) > 1:
            # image order does not change dataset scores or threshold rows (OIS up to ties, decided by the model)
            perm = list(range(len(counts)))[::-1]
            got2 = f(single, thr_arg, [samples[i] for i in perm], nproc=1)
            tick()
            o2 = verify(got2, thr, [names[i] for i in perm], [counts[i] for i in perm], "%s reversed" % tag)
            expect(all(near(o[k], o2[k]) for k in KEYS), lambda: "%s: image order changes the scores of %s: %s / %s" % (tag, counts, o, o2))
    return tuple(round(float(out[0][2][k]), 6) for k in KEYS)


# options for one threshold of one image: (cr, cp, sp), by number of ground-truth pixels
OPT = {0: [(0, 0, 0), (0, 0, 3)],
       2: [(0, 0, 0), (0, 0, 2), (1, 1, 1), (1, 1, 4), (2, 2, 2), (2, 1, 3)],
       4: [(0, 0, 1), (1, 1, 1), (3, 2, 5), (4, 4, 4), (2, 2, 7)],
       1: [(0, 0, 0), (1, 1, 1), (1, 1, 2), (0, 0, 1)],
       3: [(0, 0, 0), (3, 3, 3), (2, 1, 2), (1, 1, 6)]}


def images(T, srs):
    out = []
    for sr in srs:
        for o in itertools.product(OPT[sr], repeat=T):
            out.append([(c[0], sr, c[1], c[2]) for c in o])
    return out


# the ground truth of one image differs between thresholds
MOVING = [(0, 0, 0, 3), (1, 1, 1, 2), (2, 3, 2, 2), (1, 4, 1, 4), (3, 9, 4, 5)]


def check_moving(c):
    T, n = c["T"], c["n"]
    k, cs = c["code"], []
    for _ in range(n):
        im = []
        for _ in range(T):
            k, r = divmod(k, len(MOVING))
            im.append(MOVING[r])
        cs.append(im)
    return run(THR[T][c["code"] % len(THR[T])], THR[T][c["code"] % len(THR[T])], cs, which=[None, "binary", "multi"][c["code"] % 3])


THR = {1: [[0.5], [0.0], [1.0]], 2: [[0.25, 0.75], [0.9, 0.1]], 3: [[0.25, 0.5, 0.75], [0.1, 0.2, 0.9], [0.75, 0.5, 0.25]]}


def check_small(c):
    T, ims = c["T"], c["ims"]
    k = c["code"]
    cs = []
    for _ in range(c["n"]):
        k, r = divmod(k, len(ims))
        cs.append(ims[r])
    thr = THR[T][c["code"] % len(THR[T])]
    return run(thr, [list, np.array, lambda t: tuple(t) and list(t)][c["code"] % 3](thr), cs, dt=[float, np.int64][c["code"] % 2],
               which=[None, "binary", "multi"][c["code"] % 3], extra=c["n"] < 3 or c["code"] % 4 == 0)


class Ims(list):
    def __repr__(self):
        return "<%d images>" % len(self)


def small(name, T, n, srs, step=1):
    ims = images(T, srs)
    total = len(ims) ** n
    def case(i):
        code = i * step % total
        k, idx = code, []
        for _ in range(n):
            k, r = divmod(k, len(ims))
            idx.append(r)
        return dict(T=T, n=n, counts=[ims[r] for r in idx], code=code)
    return Scope(name, total // step, case, lambda c: check_small(dict(c, ims=ims)), timeout=120,
                 note="every combination of per-threshold counts" + ("" if step == 1 else " (every %d-th)" % step))


def check_family(c):
    """Long threshold lists with every combination of monotone curve shapes."""
    T = c["T"]
    thr = [(i + 1) / (T + 1) for i in range(T)]
    cs = []
    for shape in c["shapes"]:
        g, a, b, z = shape
        im = []
        for t in range(T):
            u = t / max(1, T - 1)
            cr = int(round(g * max(0.0, 1 - u ** a))) if z != "empty" else 0
            sp = int(round((g + b) * (1 - u) + cr * u)) if z != "dead" else (0 if u > .5 else g)
            cr = min(cr, sp) if z != "multi" else cr
            sp = max(sp, cr)
            im.append((cr, g if z != "empty" else 0, cr, sp))
        cs.append(im)
    return run(thr, T if c["int"] else thr, cs)


def check_many(c):
    """Many images, many thresholds, large counts."""
    T, n = c["T"], c["n"]
    thr = [(i + 1) / (T + 1) for i in range(T)]
    if c["order"] == 1:
        thr = thr[::-1]
    cs = []
    for k in range(n):
        h = lambda i, m: ((k * 7919 + i * 104729 + c["salt"] * 31337 + (k * i) % 97 * 1299709) >> 3) % m
        g = 1 + h(1, c["top"])
        im, cp, sp = [], 0, 0
        for t in range(T):
            sp += h(2 + t, 2 * c["top"] // T + 2)
            cp = min(sp, g, cp + h(500 + t, c["top"] // T + 2))
            im.append((max(0, cp - h(900, 3)), g, cp, sp))
        if h(7, 11) == 0:
            im = [(0, 0, 0, z[3]) for z in im]
        cs.append(im[::-1] if c["order"] != 1 else im)
    if np.prod([float(len(o)) for o in model(thr, cs[:0] + [cs[0]])[2]]) > 50:
        return "ties"
    alt = 1.0
    for im in cs:
        F = [fm(div(z[2], z[3]), div(z[0], z[1])) for z in im]
        m = max(F)
        alt *= max(1, len({z for z, f in zip(im, F) if f >= m - EPS and f}))
    if alt > 300:
        return "ties"
    return run(thr, T if c["order"] == 2 else thr, cs, dt=[float, np.int64][n % 2], extra=n < 50)


def check_narrow(c):
    """Curves of T points confined to a narrow band of recall around a 0.01 level."""
    T = c["T"]
    thr = [(i + 1) / (T + 1) for i in range(T)]
    im, r = [], c["at"]
    for t, d in enumerate(c["steps"]):
        r += d
        im.append((min(r, 10000), 10000, 9000 - 37 * t * t, 10000 + 11 * t))
    im = im[::-1]
    cs = [im]
    if c["split"]:
        # the same counts shared by two images: the dataset's curve is narrow, the images' own curves are not
        cs = [[(z[0] - z[0] // 3, z[1] - 4000, z[2] // 2, z[3] // 2) for z in im], [(z[0] // 3, 4000, z[2] - z[2] // 2, z[3] - z[3] // 2) for z in im]]
    return run(thr, T if c["int"] else thr, cs)


def check_perfect(c):
    """Ground truth as prediction: every score is 1."""
    T = c["T"]
    thr = [(i + 1) / (T + 1) for i in range(T)]
    cs = [[(g, g, g, g)] * T for g in c["gts"]]
    o = dict(zip(KEYS, run(thr, T, cs)))
    if sum(c["gts"]):
        for k in ("ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AP"):
            expect(near(o[k], 1), lambda: "perfect detector: %s = %r" % (k, o[k]))
    return tuple(o.values())


def build(tier):
    big = tier == "thorough"
    sc = [small("one_image", 3, 1, (0, 1, 2, 3, 4)), small("one_image_1", 1, 1, (0, 1, 2, 3, 4)),
          small("two_images_1", 1, 2, (0, 1, 2, 3, 4)), small("two_images_2", 2, 2, (0, 1, 2, 3, 4)),
          small("three_images_1", 1, 3, (0, 1, 2, 3, 4)),
          small("two_images_3", 3, 2, (0, 2, 4), 1 if big else 7),
          small("three_images_2", 2, 3, (0, 2, 3), 1 if big else 23)]
    shp = [(g, a, b, z) for g in (1, 7, 100) for a in (0.3, 1, 4) for b in (0, 30) for z in ("", "dead")] + [(5, 1, 3, "empty"), (6, 2, 0, "multi")]
    sc.append(product_scope("curves", [("T", [1, 2, 5, 99]), ("int", [True, False]), ("shapes", [s for n in (1, 2) for s in itertools.product(shp if big else shp[::4] + shp[-2:], repeat=n)])], check_family, note="families of precision-recall curves, up to 99 thresholds"))
    for T, n in ((2, 1), (3, 1), (2, 2)):
        sc.append(product_scope("moving_%d_%d" % (T, n), [("T", [T]), ("n", [n]), ("code", range(len(MOVING) ** (T * n)))], check_moving, note="counts whose number of ground-truth pixels differs between thresholds"))
    sc.append(product_scope("narrow", [("T", [3]), ("int", [True, False]), ("split", [False, True]), ("at", [0, 1, 1899, 2000, 4963, 5790, 9890]), ("steps", list(itertools.product((0, 1, 9, 38, 99, 100, 101), repeat=3)))], check_narrow, note="curves within 0.03 of recall, on every side of a recall level"))
    sc.append(product_scope("perfect", [("T", [1, 2, 3, 99]), ("gts", [g for n in (1, 2, 3) for g in itertools.product((0, 1, 3, 7), repeat=n)])], check_perfect, note="perfect detector"))
    sc.append(product_scope("many_images", [("n", [5, 8, 33, 100, 257]), ("T", [1, 2, 10, 99, 260]), ("top", [30, 300, 70000, 10 ** 7]), ("order", [0, 1, 2]), ("salt", [0] if not big else range(5))], check_many, note="up to 257 images, 260 thresholds and counts of ten million", timeout=600))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of both calculate_metrics on every count table of the listed spaces, in both image orders, compared with scores computed from their definitions (the first threshold wins a tie; maxima that differ by rounding only are all accepted)",
                    assumptions=["counts are small integers; levels where a recall coincides with a grid point up to rounding may go either way"])
