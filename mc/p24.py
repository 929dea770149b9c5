"""P24: directory scanning, progress helpers, logging."""
import collections, io, itertools, logging, os, shutil, sys
from pathlib import Path
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick, in_child
import dsgen as ds

# ------------------------------------------------------------------ scandir
# entry -> kind; children of directories are chosen separately
FILES = ["a.png", "b.PNG", ".h.png", "x.txt", "png", "a.png.txt", "c d.Png", "UP.TXT", "z", "m_GTFine_Ids.png", "n_gtFine_ids.PNG"]
DIRS = ["d", ".hd", "e.png"]
KIDS = [(), ("a.png",), (".k.png", "x.txt"), ("q.PnG", "sub/a.png", "sub/.s/b.txt"), ("emptydir/",), ("loop->x", "..f.png", "...")]
SUF = [None, ".png", "png", ".PNG", (".png", ".txt"), (".PNG", ".Txt"), "a.png", "_gtFine_ids.png", "", ()]


def make_tree(c):
    d = ds.tmpdir()
    files, ddirs = [], []
    for i, f in enumerate(FILES):
        if c["files"] >> i & 1:
            open(os.path.join(d, f), "w").close()
            files.append(f)
    for name, k in zip(DIRS, c["dirs"]):
        if k < 0:
            continue
        os.makedirs(os.path.join(d, name))
        for kid in KIDS[k]:
            p = os.path.join(d, name, kid)
            if kid.endswith("/"):
                os.makedirs(p)
            elif "->" in kid:
                os.symlink(os.path.join(d, "nowhere"), os.path.join(d, name, kid.split("->")[0]))
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").close()
                files.append(name + "/" + kid)
    if c["link"]:
        t = ds.tmpdir()
        open(os.path.join(t, "l.png"), "w").close()
        os.symlink(os.path.join(t, "l.png"), os.path.join(d, "ln.png"))
        os.symlink(t, os.path.join(d, "ldir"))
        os.symlink(os.path.join(t, "gone"), os.path.join(d, "broken.png"))
        files += ["ln.png", "ldir/l.png"]
        return d, files, t
    return d, files, None


def wanted(files, suffix, rec, case):
    out = []
    for f in files:
        base = f.rsplit("/", 1)[-1]
        if base.startswith(".") or ("/" in f and not rec):
            continue
        if suffix is not None:
            s = suffix if isinstance(suffix, tuple) else (suffix,)
            if not case:
                if not any(f.lower().endswith(x.lower()) for x in s):
                    continue
            elif not any(f.endswith(x) for x in s):
                continue
        out.append(f)
    return sorted(out)


def check_scan(c):
    from pyEdgeEval.utils import scandir
    d, files, extra = make_tree(c)
    cwd = os.getcwd()
    n = 0
    try:
        os.chdir(os.path.dirname(d))
        for suffix, rec, case in itertools.product(SUF, (False, True), (True, False)):
            forms = [d, Path(d), d + "/", os.path.basename(d), "./" + os.path.basename(d) + "/", os.path.join(d, "..", os.path.basename(d))]
            arg = forms[(n + c["files"]) % len(forms)]
            got = sorted(scandir(arg, suffix=suffix, recursive=rec, case_sensitive=case))
            want = wanted(files, suffix, rec, case)
            n += 1
            expect(got == want, lambda: "scandir(%r, suffix=%r, recursive=%s, case_sensitive=%s) of %s\nyields   %s\nexpected %s" % (arg, suffix, rec, case, sorted(files), got, want))
        got = sorted(scandir(d))
        expect(got == wanted(files, None, False, True), "default scan yields %s" % got)
        os.chdir(d)
        got = sorted(scandir(".", recursive=True))
        expect(got == wanted(files, None, True, True), "scan of the current directory yields %s" % got)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        if extra:
            shutil.rmtree(extra)
    tick(n + 2)
    return (len(files), c["link"])


def check_scan_many(c):
    """Directories with many entries, and deep ones."""
    from pyEdgeEval.utils import scandir
    d = ds.tmpdir()
    files = []
    try:
        for k in range(c["n"]):
            sub = "/".join(["s%d" % (k % 11), ".t", "u.png"][:1 + k % 3] * (1 + k % c["depth"])) + "/" if k % 4 else ""
            f = "%s%s%d%s" % (sub, "." if k % 13 == 5 else "", k, [".png", ".txt", "", ".PNG"][k * 7 // 3 % 4])
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "w").close()
            files.append(f)
        for suffix, rec, case in itertools.product(SUF, (False, True), (True, False)):
            got = sorted(scandir(d, suffix=suffix, recursive=rec, case_sensitive=case))
            tick()
            want = wanted(files, suffix, rec, case)
            expect(got == want, lambda: "scandir(suffix=%r, recursive=%s, case_sensitive=%s) of %d files up to %d levels deep: missing %s, extra %s" % (suffix, rec, case, c["n"], 3 * c["depth"], sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]))
        return len(files)
    finally:
        shutil.rmtree(d)


def check_progress_many(c):
    from pyEdgeEval.utils import track_progress, track_iter_progress
    n = c["n"]
    calls = []
    bar = io.StringIO()
    got = track_progress(lambda x: calls.append(x) or x * x, range(n) if c["form"] == "range" else (iter(range(n)), n) if c["form"] == "iter" else list(range(n)), bar_width=c["width"], file=bar) if c["form"] != "range" else \
        track_progress(lambda x: calls.append(x) or x * x, (range(n), n), bar_width=c["width"], file=bar)
    expect(calls == list(range(n)) and got == [x * x for x in range(n)], lambda: "track_progress over %d tasks: %d calls, %d results" % (n, len(calls), len(got)))
    expect("%d/%d" % (n, n) in bar.getvalue().split("\r")[-1], "the bar ends with %r" % bar.getvalue()[-80:])
    got = list(track_iter_progress(list(range(n)), bar_width=c["width"], file=io.StringIO()))
    expect(got == list(range(n)), lambda: "track_iter_progress over %d tasks yields %d" % (n, len(got)))
    tick(2)
    return n


def check_scan_bad(c):
    from pyEdgeEval.utils import scandir
    d = ds.tmpdir()
    open(os.path.join(d, "a.png"), "w").close()
    try:
        kw = dict(c["kw"])
        arg = {"dir": d, "none": None, "int": 3, "list": [d], "missing": os.path.join(d, "nowhere"), "file": os.path.join(d, "a.png")}[c["dir"]]
        try:
            got = list(scandir(arg, **kw))
            ok = False
        except Exception:
            ok = True
        expect(ok, lambda: "scandir(%r, %s) yields %s" % (arg, kw, got))
        tick()
        return ok
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ progress helpers
class Boom(Exception):
    pass


def check_progress(c):
    from pyEdgeEval.utils import track_progress, track_iter_progress
    vals = [None, 0, "x", (1, 2), [3], 0.5, False, {}][:c["n"]]
    forms = {"list": lambda: list(vals), "pair": lambda: (list(vals), len(vals)), "iter": lambda: (iter(list(vals)), len(vals)), "gen": lambda: ((v for v in vals), len(vals)),
             "more": lambda: (list(vals), len(vals) + 2), "less": lambda: (list(vals), max(len(vals) - 1, 0)), "deque": lambda: collections.deque(vals)}
    old = {k: os.environ.get(k) for k in ("COLUMNS", "LINES")}
    os.environ["COLUMNS"] = str(c["cols"])
    try:
        calls = []
        def f(x, **kw):
            calls.append((x, kw))
            if c["fail"] is not None and len(calls) == c["fail"] + 1:
                raise Boom(str(c["fail"]))
            return ("r", len(calls), x)
        bar = io.StringIO()
        kw = c["kw"]
        arg = forms[c["form"]]()
        err = got = None
        try:
            got = track_progress(f, arg, file=bar, no_bar=c["nobar"], bar_width=c["width"], **kw)
        except Boom as e:
            err = e
        upto = c["n"] if c["fail"] is None or c["fail"] >= c["n"] else c["fail"] + 1
        expect(calls == [(v, kw) for v in vals[:upto]], lambda: "track_progress(%s) called the function with %s for tasks %s" % (c, calls, vals))
        if upto < c["n"] or (c["fail"] is not None and c["fail"] < c["n"]):
            expect(err is not None, "a failing task was swallowed")
        else:
            expect(err is None and got == [("r", i + 1, v) for i, v in enumerate(vals)], lambda: "track_progress(%s) returns %s" % (c, got))
            if c["nobar"]:
                expect(bar.getvalue() == "", "no_bar printed %r" % bar.getvalue())
            elif c["form"] in ("list", "pair", "iter", "gen", "deque") and c["n"]:
                expect("%d/%d" % (c["n"], c["n"]) in bar.getvalue().split("\r")[-1], "bar ends with %r" % bar.getvalue()[-80:])
        tick()
        # iteration
        if c["fail"] is None and not kw and not c["nobar"]:
            bar = io.StringIO()
            got = list(track_iter_progress(forms[c["form"]](), bar_width=c["width"], file=bar))
            expect(got == vals, lambda: "track_iter_progress yields %s for %s" % (got, vals))
            it = iter(track_iter_progress(forms[c["form"]](), bar_width=c["width"], file=io.StringIO()))
            part = list(itertools.islice(it, 1))
            expect(part == vals[:1], "track_iter_progress starts with %s" % part)
            tick(2)
        return (upto, c["form"])
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def check_progress_bad(kind):
    from pyEdgeEval.utils import track_progress, track_iter_progress, track_parallel_progress
    for f in (lambda t: track_progress(str, t, file=io.StringIO()), lambda t: list(track_iter_progress(t, file=io.StringIO())), lambda t: track_parallel_progress(str, t, 1, file=io.StringIO())):
        t = {"int": 5, "none": None, "triple": ([1], 1, 2), "badpair": (5, 1), "badnum": ([1, 2], "2"), "single": ([1],)}[kind]
        try:
            f(t)
            ok = False
        except Exception:
            ok = True
        expect(ok, "tasks given as %r are accepted" % (t,))
        tick()
    return kind


# ------------------------------------------------------------------ logging
NAMES = ["A", "A.b", "AB", "C"]
LEVELS = [logging.INFO, logging.ERROR]


def requests(big):
    r = [("get", n, f, l) for n in NAMES for f in (False, True) for l in LEVELS]
    r += [("root", None, f, l) for f in (False, True) for l in LEVELS]
    r += [("print", n, None, None) for n in NAMES + ["pyEdgeEval"]]
    return r


def ancestors(n):
    p = n.split(".")
    return [".".join(p[:k]) for k in range(len(p) - 1, 0, -1)]


def check_log(c):
    def go():
        from pyEdgeEval.utils import get_logger, get_root_logger, print_log
        d = ds.tmpdir()
        err, out = io.StringIO(), io.StringIO()
        sys.stderr, sys.stdout = err, out
        init = {}          # name -> (file or None, level), in order of initialisation
        loggers = {}
        serial = 0
        bad = None

        def model_init(name, file, level):
            if name in init or any(a in init for a in ancestors(name)):
                return
            init[name] = (file, level)

        def sends(name, level):
            """(console destinations, files) a message of that level must reach."""
            chain = [n for n in [name] + ancestors(name) if n in init]
            eff = init[chain[0]][1]
            if level < eff:
                return 0, set()
            act = [n for n in chain if level >= init[n][1]]
            return len(act), {init[n][0] for n in act if init[n][0]}
        files = set()
        for k, (kind, name, file, level) in enumerate(c["seq"]):
            path = os.path.join(d, "f%d.log" % k) if file else None
            nm = "pyEdgeEval" if kind == "root" else name
            if kind == "get":
                loggers[nm] = get_logger(nm, log_file=path, log_level=level)
            elif kind == "root":
                loggers[nm] = get_root_logger(log_file=path, log_level=level)
            if kind == "print":
                model_init(nm, None, logging.INFO)
                loggers.setdefault(nm, None)
            else:
                model_init(nm, path, level)
                if path:
                    files.add(path)
            # messages to every logger requested so far
            for target in list(loggers):
                for lv in LEVELS:
                    for via in ("object", "name"):
                        if kind == "print" and target == nm and k == len(c["seq"]) - 1:
                            via = "name"
                        if via == "object" and loggers[target] is None:
                            continue
                        if via == "name" and target not in init and not any(a in init for a in ancestors(target)):
                            continue
                        serial += 1
                        msg = "<message %d>" % serial
                        a = (len(err.getvalue()))
                        lg = loggers[target] if via == "object" else target
                        print_log(msg, logger=lg, level=lv)
                        con, fl = sends(target, lv)
                        n = err.getvalue().count(msg)
                        if n != min(con, 1):
                            late = con > 1 and n == con
                            return "after %s: message of level %s to logger %r %s" % (c["seq"][:k + 1], lv, target, "requested before its parent: console %d times" % n if late else "appears %d times on the console, expected %d" % (n, min(con, 1)))
                        for p in files | fl:
                            txt = open(p).read() if os.path.exists(p) else ""
                            if txt.count(msg) != (p in fl):
                                return "after %s: message of level %s to logger %r appears %d times in %s, expected %d" % (c["seq"][:k + 1], lv, target, txt.count(msg), os.path.basename(p), p in fl)
        if out.getvalue():
            return "printed %r" % out.getvalue()
        for lg, want in ((None, 1), ("silent", 0)):
            print_log("<plain>", logger=lg)
            if out.getvalue().count("<plain>") != want * 1 and lg is None or "<plain>" in err.getvalue():
                return "print_log with logger=%r: %r" % (lg, out.getvalue())
            if lg == "silent" and out.getvalue().count("<plain>") != 1:
                return "print_log printed a silent message"
        class Own(logging.Logger):
            pass

        for lg in (logging.Logger("own"), Own("own.derived"), logging.getLogger(), logging.getLogger("unrelated")):
            s = io.StringIO()
            h = logging.StreamHandler(s)
            lg.addHandler(h)
            lv = lg.level
            lg.setLevel(logging.INFO)
            try:
                for level in LEVELS:
                    print_log("<own %d>" % level, logger=lg, level=level)
            except Exception as x:
                return "print_log with a logger of class %s: %r" % (type(lg).__name__, x)
            finally:
                lg.removeHandler(h)
                lg.setLevel(lv)
            want = ["<own %d>" % level for level in LEVELS if level >= logging.INFO]
            if s.getvalue().splitlines() != want:
                return "messages to a logger of class %s: %r, expected %s" % (type(lg).__name__, s.getvalue(), want)
        try:
            print_log("x", logger=5)
            return "print_log accepts logger=5"
        except TypeError:
            pass
        shutil.rmtree(d)
        return ("ok", serial)
    kind, r = in_child(go, 60)
    expect(kind == "ok", lambda: "logging %s: %s" % (c["seq"], r))
    expect(isinstance(r, tuple), r)
    tick(r[1])
    return r


def build(tier):
    big = tier == "thorough"
    sc = []
    kid = range(-1, len(KIDS))
    n = len(FILES)
    subsets = list(range(1 << n)) if big else sorted({0, (1 << n) - 1} | {1 << i for i in range(n)} | {1 << i | 1 << j for i in range(n) for j in range(i)} | {((1 << n) - 1) ^ (1 << i) for i in range(n)})
    dirs = list(itertools.product(kid, repeat=3))
    sc.append(product_scope("scandir", [("files", [0, 1, (1 << n) - 1, 0b1011, 0b110110]), ("dirs", dirs), ("link", [False, True])], check_scan, steps=1, note="every combination of subdirectory contents; every option combination inside a case"))
    sc.append(product_scope("scandir_files", [("files", subsets), ("dirs", [(-1, -1, -1), (3, -1, 1), (-1, 2, 5)] if not big else dirs[::31]), ("link", [False])], check_scan, note="every %s of files" % ("subset" if big else "pair, single, all but one")))
    sc.append(list_scope("scandir_rejected", [dict(dir=x, kw=k) for x, k in [("none", {}), ("int", {}), ("list", {}), ("missing", {}), ("file", {}), ("dir", dict(suffix=3)), ("dir", dict(suffix=[".png"])), ("dir", dict(suffix={".png"})), ("missing", dict(recursive=True)), ("dir", dict(suffix=3, case_sensitive=False))]], check_scan_bad))
    sc.append(product_scope("progress", [("n", range(0, 9)), ("form", ["list", "pair", "iter", "gen", "more", "less", "deque"]), ("fail", [None, 0, 1, 3]), ("nobar", [False, True]), ("kw", [{}, {"a": 1}]), ("cols", [80, 10, 1]), ("width", [50, 2])], check_progress))
    sc.append(product_scope("scandir_many", [("n", [30, 257, 1100] + ([5000] if big else [])), ("depth", [1, 3, 9])], check_scan_many, note="hundreds of files, up to 27 levels deep"))
    sc.append(product_scope("progress_many", [("n", [100, 255, 256, 257, 1000] + ([20000] if big else [])), ("form", ["list", "iter", "range"]), ("width", [50, 3])], check_progress_many))
    sc.append(list_scope("progress_rejected", ["int", "none", "triple", "badpair", "badnum", "single"], check_progress_bad))
    R = requests(big)
    for k in (1, 2, 3):
        seqs = itertools.product(R, repeat=k)
        seqs = [s for s in seqs]
        if k == 3 and not big:
            seqs = seqs[::3]
        sc.append(list_scope("loggers_%d" % k, [dict(seq=s) for s in seqs], check_log, note="%s sequence of %d requests; messages to every logger after every request" % ("every" if k < 3 or big else "every third", k)))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="exhaustive execution of the helpers on enumerated directory trees, task lists and request sequences (loggers in a fresh process each); observed paths, calls and messages are compared with their definition",
                    assumptions=["no symbolic link cycles"])
