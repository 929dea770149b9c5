"""P28: batch suppression and file helpers touch exactly the files they are asked to."""
import importlib, io, itertools, os, contextlib
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
from p09 import digits
import dsgen as ds


def nms_module():
    import pyEdgeEval.preprocess.nms  # noqa
    return importlib.import_module("pyEdgeEval.preprocess.nms.fast_nms")


IMAGES = []
for _k in range(4):
    _i = np.zeros((16, 20))
    _i[7, 3:17] = 0.3 + 0.2 * _k
    _i[9 + _k, 4:18] = 0.9 - 0.2 * _k
    IMAGES.append(_i)
IMAGES.append(np.zeros((16, 20)))     # nothing to suppress
IMAGES.append(np.full((16, 20), 1e-4))     # nothing left in 8 bits
IMAGES.append(IMAGES[1] * 1.9)        # strengths above 1
NAMES = ["a", "ab", "a.b", "c d", "b"]
PICK = [0, 6, 4, 5, 2]
FORM = {".npy": lambda p, a: np.save(p, a), ".mat": None, ".txt": lambda p, a: np.savetxt(p, a)}


def put(p, a, key):
    ext = os.path.splitext(p)[1]
    if ext == ".npy":
        with open(p, "wb") as f:
            np.save(f, a)
    elif ext == ".mat":
        from scipy.io import savemat
        savemat(p, {key: a, "other": a[::-1].copy()}, appendmat=False)
    else:
        np.savetxt(p, a)


def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}


def check_batch(c):
    import cv2
    M = nms_module()
    d = ds.tmpdir()
    src, out = os.path.join(d, "src"), os.path.join(d, *c["out"])
    os.mkdir(src)
    want = {}
    models = c["models"] if isinstance(c["models"], list) else [c["models"]]
    subs = [""] if c["f"] == "nms_results" else models
    for k, (name, kind) in enumerate(zip(NAMES, c["files"])):
        if kind is None:
            continue
        put(os.path.join(src, name + kind), IMAGES[PICK[k]], "res")
        if c["f"] == "nms_results" or kind == c["fmt"]:
            for s in subs:
                want[os.path.join(s, name + ".png")] = M.fast_nms(IMAGES[PICK[k]], r=1, s=5, m=1.01, return_as_uint8=True)
    if c["f"] != "nms_results":
        # files that are no maps of any format
        for n in ("notes_npy", "mat", "x.npy~"):
            with open(os.path.join(src, n), "w") as f:
                f.write("about the maps")
    stale = b"an older result"
    if c["old"]:
        for s in subs:
            os.makedirs(os.path.join(out, s), exist_ok=True)
            for n in ("a.png", "zz.png"):
                with open(os.path.join(out, s, n), "wb") as f:
                    f.write(stale)
                want[os.path.join(s, n)] = stale
    before = tree(src)

    def load(p):
        if p.endswith(".npy"):
            return np.load(p)
        from scipy.io import loadmat
        return loadmat(p)["res"] if p.endswith(".mat") else np.loadtxt(p)
    with contextlib.redirect_stdout(io.StringIO()):
        if c["f"] == "nms_results":
            M.nms_results(src, out, load)
        else:
            M.nms_all_results(c["models"], src, out, **({} if c["fmt"] == ".mat" and c["out"] == ["o"] else {"file_format": c["fmt"]}), key="res")
    tick()
    what = lambda: "%s of %s%s" % (c["f"], sorted(before), ", an older a.png was there" if c["old"] else "")
    expect(tree(src) == before, lambda: what() + ": the inputs were changed")
    got = tree(out)
    expect(sorted(got) == sorted(want), lambda: "%s: wrote %s, expected %s" % (what(), sorted(got), sorted(want)))
    for n, w in want.items():
        if isinstance(w, bytes):
            expect(got[n] == w, lambda: "%s: %s was overwritten" % (what(), n))
        else:
            g = cv2.imread(os.path.join(out, n), cv2.IMREAD_UNCHANGED)
            expect(g is not None and g.shape == w.shape and (g == w).all(), lambda: "%s: %s does not hold the suppressed map" % (what(), n))
    return len(want)


def check_many(c):
    import cv2
    M = nms_module()
    d = ds.tmpdir()
    src, out = os.path.join(d, "src"), os.path.join(d, "out")
    os.mkdir(src)
    want = {}
    from scipy.io import savemat, loadmat
    models = ["m%d" % k for k in range(c["models"])]
    for k in range(c["n"]):
        name = "%s%d" % (["i", "x.y", "1"][k % 3], k)
        put(os.path.join(src, name + c["fmt"]), np.roll(IMAGES[k % len(IMAGES)], k % 5, 0), "res")
        w = M.fast_nms(np.roll(IMAGES[k % len(IMAGES)], k % 5, 0), r=1, s=5, m=1.01, return_as_uint8=True)
        for m in models or [""]:
            want[os.path.join(m, name + ".png")] = w
    load = (lambda p: loadmat(p)["res"]) if c["fmt"] == ".mat" else np.load
    with contextlib.redirect_stdout(io.StringIO()):
        if models:
            M.nms_all_results(models, src, out, key="res", file_format=c["fmt"])
        else:
            M.nms_results(src, out, load)
    tick()
    got = tree(out)
    expect(sorted(got) == sorted(want), lambda: "%s: %d files written, expected %d" % (c, len(got), len(want)))
    for n, w in want.items():
        g = cv2.imread(os.path.join(out, n), cv2.IMREAD_UNCHANGED)
        expect(g is not None and g.shape == w.shape and (g == w).all(), lambda: "%s: %s does not hold the suppressed map" % (c, n))
    return len(want)


def check_one(c):
    import cv2
    M = nms_module()
    d = ds.tmpdir()
    img = IMAGES[c["k"]]
    img = (img * 255).round().astype(np.uint8) if c["u8"] else img.astype(c["dtype"])
    keep = img.copy()
    p = os.path.join(d, "r.png") if c["path"] else None
    got = M.nms_process_one_image(img, p, c["save"])
    tick()
    want = M.fast_nms(keep, r=1, s=5, m=1.01, return_as_uint8=True)
    expect(got.dtype == np.uint8 and (got == want).all() and (img == keep).all(), "the returned map is not the suppressed input")
    expect(sorted(os.listdir(d)) == (["r.png"] if c["path"] and c["save"] else []), lambda: "files after save=%s: %s" % (c["save"], os.listdir(d)))
    if c["path"] and c["save"]:
        expect((cv2.imread(p, cv2.IMREAD_UNCHANGED) == want).all(), "the saved map is not the returned one")
    if c["path"] and c["save"]:
        try:
            M.nms_process_one_image(img, os.path.join(d, "r.jpg"), True)
        except Exception:
            pass
        else:
            expect(False, "a lossy output file was accepted")
        expect(sorted(os.listdir(d)) == ["r.png"], "a rejected call wrote a file")
    return c["save"]


# ------------------------------------------------------------ file helpers
# model of a small directory: name -> ("f", content) | ("d",) | ("l", target)
PRE = [{}, {"f": ("f", "F")}, {"f": ("f", "F"), "a": ("d",), "l": ("l", "f")}, {"l": ("l", "gone"), "a": ("l", "b"), "b": ("d",)}]
FOPS = ([("mkdir", p) for p in ("a", "a/b", "f", "l", "", "~/h", "$HOME~")] +
        [("symlink", s, t, o) for s in ("f", "a") for t in ("l", "a", "f") for o in (True, False) if s != t] +
        [("check", p) for p in ("f", "l", "a", "gone")])


class Fail(Exception):
    pass


def resolve(fs, p, depth=0):
    """Final location of a path (following links), with its missing parents."""
    if depth > 8:
        raise Fail
    cur = ""
    for part in p.split("/"):
        cur = (cur + "/" + part) if cur else part
        e = fs.get(cur)
        if e and e[0] == "l":
            cur = resolve(fs, e[1], depth + 1)
    return cur


def m_step(fs, op):
    """Result: None | "raise"; changes fs."""
    if op[0] == "check":
        try:
            e = fs.get(resolve(fs, op[1]))
        except Fail:
            return "raise"
        return None if e and e[0] == "f" else "raise"
    if op[0] == "mkdir":
        p = "home" + op[1][1:] if op[1][:1] == "~" else op[1]
        if p == "":
            return None
        parts = p.split("/")
        for k in range(1, len(parts) + 1):
            q = "/".join(parts[:k])
            try:
                r = resolve(fs, q)
            except Fail:
                return "raise"
            e = fs.get(r)
            if e and e[0] == "d":
                continue
            if e or q in fs:                    # a file, or a link that leads nowhere
                return "raise"
            fs[r] = ("d",)
        return None
    s, t, over = op[1:]
    if t in fs:
        if not over or fs[t][0] == "d":
            return "raise"
        del fs[t]
    fs[t] = ("l", s)
    return None


def look(d):
    out = {}
    for r, ds_, fs_ in os.walk(d):
        for n in ds_ + fs_:
            p = os.path.join(r, n)
            k = os.path.relpath(p, d)
            out[k] = ("l", os.readlink(p)) if os.path.islink(p) else ("d",) if os.path.isdir(p) else ("f", open(p).read())
    return out


def check_files(c):
    from pyEdgeEval.utils import check_file_exist, mkdir_or_exist, symlink
    d = ds.tmpdir()
    ops = [FOPS[k] for k in digits(c["code"], c["depth"], len(FOPS))]
    fs = dict(PRE[c["pre"]])
    fs["home"] = ("d",)
    os.makedirs(os.path.join(d, "home"))
    for n, e in PRE[c["pre"]].items():
        p = os.path.join(d, n)
        if e[0] == "f":
            with open(p, "w") as f:
                f.write(e[1])
        elif e[0] == "d":
            os.mkdir(p)
        else:
            os.symlink(e[1], p)
    cwd, home = os.getcwd(), os.environ.get("HOME")
    os.environ["HOME"] = os.path.join(d, "home")
    try:
        os.chdir(d)
        for k, op in enumerate(ops):
            want = m_step(fs, op)
            err = None
            full = lambda p: os.path.join(d, p) if c["absolute"] and p and p[0] != "~" else p
            try:
                if op[0] == "mkdir":
                    mkdir_or_exist(full(op[1]))
                elif op[0] == "symlink":
                    symlink(op[1], full(op[2]), *([] if op[3] and k % 2 else [op[3]]))
                else:
                    check_file_exist(full(op[1]), *(["no {}!"] if k % 2 else []))
            except OSError as e:
                err = e
            tick()
            what = lambda: "%s, then %s" % (PRE[c["pre"]], ops[:k + 1])
            expect((err is not None) == (want == "raise"), lambda: "%s: %s" % (what(), "failed with %r" % err if err else "did not fail"))
            if err and op[0] == "check":
                expect(isinstance(err, FileNotFoundError) and str(err) == ("no %s!" if k % 2 else 'file "%s" does not exist') % full(op[1]), lambda: "%s: %r" % (what(), err))
            got = look(d)
            expect(got == fs, lambda: "%s: the directory holds\n%s, expected\n%s" % (what(), got, fs))
    finally:
        os.chdir(cwd)
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home
    return sorted(fs)


def check_mode(c):
    from pyEdgeEval.utils import mkdir_or_exist
    d = ds.tmpdir()
    old = os.umask(c["umask"])
    try:
        p = os.path.join(d, c["path"])
        if c["there"]:
            os.makedirs(p)
            os.chmod(p, 0o711)
        mkdir_or_exist(p, *([] if c["mode"] is None else [c["mode"]]))
        tick()
    finally:
        os.umask(old)
    want = 0o711 if c["there"] else (0o777 if c["mode"] is None else c["mode"]) & ~c["umask"]
    got = os.stat(p).st_mode & 0o777
    expect(got == want, lambda: "mkdir_or_exist(mode=%s): the directory has mode %o, expected %o" % (c["mode"] and oct(c["mode"]), got, want))
    return got


def build(tier):
    big = tier == "thorough"
    ds_k = [None, ".npy", ".mat"]
    combos = [list(f) for f in itertools.product(ds_k, repeat=4)]
    sc = []
    sc.append(list_scope("nms_results", [dict(f="nms_results", files=f + [k], out=o, old=old, models=[], fmt=None)
                                         for f in combos for k in (None, ".txt") for o in (["o"], ["o", "deep"]) for old in (False, True)][:: 1 if big else 5], check_batch, note="every assignment of formats to file names"))
    sc.append(list_scope("nms_all_results", [dict(f="nms_all_results", files=f + [k], out=o, old=old, models=m, fmt=fmt)
                                             for f in combos for k in (None, ".txt") for o in (["o"], ["o", "deep"]) for old in (False, True) for m in ("m", ["m"], ["m", "n"]) for fmt in (".npy", ".mat")][:: 1 if big else 7], check_batch))
    sc.append(product_scope("many_files", [("n", [11, 40, 130]), ("models", [0, 1, 4, 12]), ("fmt", [".npy", ".mat"])], check_many, note="up to 130 files, up to 12 models"))
    sc.append(product_scope("one_image", [("k", range(4)), ("u8", [False, True]), ("dtype", ["float64", "float32"]), ("path", [False, True]), ("save", [False, True])],
                            lambda c: "outside" if c["save"] and not c["path"] else check_one(c)))
    sc.append(product_scope("mode", [("path", ["x", "x/y"]), ("there", [False, True]), ("umask", [0, 0o22, 0o77]), ("mode", [None, 0o755, 0o700])], check_mode))
    n = len(FOPS)
    sc.append(product_scope("files2", [("pre", range(4)), ("absolute", [False, True]), ("depth", [2]), ("code", range(n ** 2))], check_files, note="every sequence of two file operations from four directories"))
    sc.append(product_scope("files3", [("pre", range(4)), ("absolute", [False]), ("depth", [3]), ("code", range(n ** 3))], check_files, note="every sequence of three file operations"))
    return sc, dict(budget=300 if tier == "quick" else 1500,
                    how="direct execution of the batch suppression helpers on every small directory of maps, and of the file helpers in every operation sequence up to the depth, compared with a model of the directory",
                    assumptions=["fast_nms itself is the subject of P07"])
