"""P27: timers, progress bars and sequential progress tracking."""
import contextlib, importlib, io, itertools, os, re, sys, time
from core import Scope, product_scope, list_scope, expect, tick
from p09 import digits

REAL = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns")}


class Clock:
    """The explorer's clock; the real one unless a case is running."""
    now = None


def _clock(name, ns):
    def f():
        return REAL[name]() if Clock.now is None else int(Clock.now * 10 ** 9) if ns else Clock.now
    return f


MOD = {}


def modules():
    """The timer and progress-bar modules, reading the explorer's clock."""
    if not MOD:
        for n in REAL:
            setattr(time, n, _clock(n, n.endswith("_ns")))
        import pyEdgeEval.utils  # noqa
        MOD["timer"] = importlib.reload(sys.modules["pyEdgeEval.utils.timer"])
        MOD["bar"] = importlib.reload(sys.modules["pyEdgeEval.utils.progressbar"])
    return MOD


@contextlib.contextmanager
def clock():
    Clock.now = 1000.0
    try:
        yield Clock
    finally:
        Clock.now = None


def near(a, b):
    return isinstance(a, (int, float)) and abs(a - b) < 1e-6


OPS = ["start", "since_start", "since_last", "with", "+1", "+2.5"]


def check_timer(c):
    M = modules()["timer"]
    ops = [OPS[d] for d in digits(c["code"], c["depth"], len(OPS))]
    with clock():
        t = M.Timer(start=c["start"], **({"print_tmpl": c["tmpl"]} if c["tmpl"] else {}))
        running, t0, last = c["start"], 1000.0, 1000.0
        for k, op in enumerate(ops):
            what = lambda: "Timer(start=%s), %s: " % (c["start"], ops[:k + 1])
            if op[0] == "+":
                Clock.now += float(op)
            elif op == "start":
                t.start()
                if not running:
                    t0 = Clock.now
                running, last = True, Clock.now
            elif op == "with":
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    with t as got:
                        expect(got is t and t.is_running, lambda: what() + "entering does not start the timer")
                        Clock.now += 0.25
                expect(out.getvalue() == (c["tmpl"] or "{:.3f}").format(0.25) + "\n", lambda: what() + "printed %r" % out.getvalue())
                if not running:
                    t0 = Clock.now - 0.25
                running, last = False, Clock.now
            else:
                f = t.since_start if op == "since_start" else t.since_last_check
                if running:
                    got = f()
                    want = Clock.now - (t0 if op == "since_start" else last)
                    expect(near(got, want), lambda: what() + "%r, expected %r" % (got, want))
                    last = Clock.now
                else:
                    try:
                        f()
                    except M.TimerError:
                        pass
                    else:
                        expect(False, lambda: what() + "a timer that is not running answered")
            expect(t.is_running == running, lambda: what() + "is_running is %s" % t.is_running)
        tick()
    return running, round(Clock.now or 0)


IDS = ["a", "b", "+1", "+0.5"]
_n = [0]
# identifiers of different kinds, some of which print alike
KEYS = {"names": lambda op, n: "%s%d" % (op, n), "alike": lambda op, n: n if op == "a" else str(n), "pairs": lambda op, n: (op, n), "prefix": lambda op, n: "t%d%s" % (n, op if op == "b" else ""), "case": lambda op, n: "%s%d" % ("Xx"[op == "a"], n), "space": lambda op, n: "%d%s" % (n, " " if op == "a" else "")}


def check_check_time(c):
    M = modules()["timer"]
    ops = [IDS[d] for d in digits(c["code"], c["depth"], len(IDS))]
    _n[0] += 1
    last = {}
    with clock():
        for k, op in enumerate(ops):
            if op[0] == "+":
                Clock.now += float(op)
                continue
            got = M.check_time(c["keys"](op, _n[0]))
            want = Clock.now - last[op] if op in last else 0
            expect(near(got, want), lambda: "check_time: %s: %r, expected %r" % (ops[:k + 1], got, want))
            last[op] = Clock.now
        tick()
    return len(last)


LINE = re.compile(r"\r\[([> ]*)\] (\d+)/(\d+), (\S+) task/s, elapsed: (\d+)s, ETA: ( *-?\d+)s")


def verify_line(s, done, total, elapsed, width, cols, what):
    m = LINE.fullmatch(s)
    expect(m, lambda: "%s: printed %r" % (what(), s))
    bar, a, b, fps, el, eta = m.groups()
    expect((int(a), int(b)) == (done, total), lambda: "%s: shows %s/%s, expected %d/%d" % (what(), a, b, done, total))
    expect(fps == "inf" if not elapsed else abs(float(fps) - done / elapsed) <= 0.05 + 1e-6, lambda: "%s: shows %s tasks/s after %d in %rs" % (what(), fps, done, elapsed))
    expect(abs(int(el) - elapsed) <= 0.5 + 1e-6, lambda: "%s: shows %ss elapsed after %rs" % (what(), el, elapsed))
    left = elapsed * (total - done) / done
    expect(abs(int(eta) - left) <= 0.5 + 1e-6, lambda: "%s: shows %ss to go, expected %r" % (what(), eta, left))
    text = len(s) - len(bar)                                  # with the carriage return
    want = max(2, min(width, cols - text, int(cols * 0.6)))
    expect(len(bar) == want, lambda: "%s: the bar is %d wide, expected %d (asked for %d, terminal %d)" % (what(), len(bar), want, width, cols))
    n = bar.count(">")
    expect(bar == ">" * n + " " * (len(bar) - n) and abs(n - len(bar) * done / total) < 1 + 1e-9 and n <= len(bar) * done / total + 1e-9, lambda: "%s: bar %r at %d/%d" % (what(), bar, done, total))


STEPS = [(n, dt) for n in (1, 2) for dt in (0, 0.3, 2.6)]


def check_bar(c):
    P = modules()["bar"]
    os.environ["COLUMNS"] = str(c["cols"])
    out = io.StringIO()
    N = c["total"]
    steps = [STEPS[d] for d in digits(c["code"], c["depth"], len(STEPS))]
    with clock():
        kw = {} if c["width"] is None else dict(bar_width=c["width"])
        width = 50 if c["width"] is None else c["width"]
        b = P.ProgressBar(N, start=c["start"], file=out, **kw)
        if not c["start"]:
            expect(out.getvalue() == "", "a bar that was not started printed")
            Clock.now += 7
            b.start()
        head = out.getvalue()
        expect(head == ("[%s] 0/%d, elapsed: 0s, ETA:" % (" " * width, N) if N else "completed: 0, elapsed: 0s"), lambda: "first line %r" % head)
        done, el, pos = 0, 0.0, len(head)
        for k, (n, dt) in enumerate(steps):
            if N and done + n > N:
                break
            Clock.now += dt
            el += dt
            done += n
            cols = (c["cols"] * (2, 1)[k % 2] // 2) if c.get("resize") else c["cols"]       # the terminal may change its size
            os.environ["COLUMNS"] = str(cols)
            b.update(n) if n > 1 or k % 2 else b.update()
            s = out.getvalue()[pos:]
            pos += len(s)
            what = lambda: "%d tasks, updates %s" % (N, steps[:k + 1])
            if N:
                verify_line(s, done, N, el, width, cols, what)
            else:
                m = re.fullmatch(r"completed: (\d+), elapsed: (\d+)s, (\S+) tasks/s", s)
                expect(m and int(m[1]) == done and abs(int(m[2]) - el) <= 0.5 + 1e-6 and (m[3] == "inf" if not el else abs(float(m[3]) - done / el) <= 0.05 + 1e-6),
                       lambda: "%s: printed %r after %d in %rs" % (what(), s, done, el))
            tick()
        for n in (0, -1):
            try:
                b.update(n)
            except Exception:
                pass
            else:
                expect(False, "an update by %d tasks was accepted" % n)
    return done, round(el)


def check_far(c):
    """Large totals and long times."""
    P = modules()["bar"]
    os.environ["COLUMNS"] = str(c["cols"])
    out = io.StringIO()
    N, cuts = c["total"], c["cuts"]
    with clock():
        b = P.ProgressBar(N, file=out, bar_width=c["width"])
        pos, done, el = len(out.getvalue()), 0, 0.0
        for k in range(1, cuts + 1):
            n = N * k // cuts - done
            if n <= 0:
                continue
            Clock.now += c["dt"]
            el += c["dt"]
            done += n
            b.update(n)
            s = out.getvalue()[pos:]
            pos += len(s)
            verify_line(s, done, N, el, c["width"], c["cols"], lambda: "%d tasks in %d steps of %rs" % (N, cuts, c["dt"]))
            tick()
    return done, round(el)


class Boom(Exception):
    pass


def check_track(c):
    """track_progress / track_iter_progress: every task once, in order."""
    P = modules()["bar"]
    from pyEdgeEval import utils as U
    os.environ["COLUMNS"] = "80"
    n, fail = c["n"], c["fail"]
    tasks = [None, 0, "x", (1, 2), [], 5][:n]
    calls, out = [], io.StringIO()
    W = dict(bar_width=c["width"]) if c["width"] else {}

    def f(t, **kw):
        calls.append((t, kw))
        Clock.now += 0.5
        if len(calls) - 1 == fail:
            raise Boom
        return ("r", t)
    form = list(tasks) if c["form"] == "list" else (iter(tasks), n) if c["form"] == "pair" else (list(tasks), n)
    what = "%s of %d tasks (%s)" % (c["f"], n, c["form"])
    with clock():
        err = None
        try:
            if c["f"] == "track_progress":
                got = P.track_progress(f, form, file=out, **W, no_bar=c["nobar"], **c["kw"])
            else:
                got = []
                for t in P.track_iter_progress(form, file=out, **W):
                    got.append(f(t))
                    if len(got) == c["stop"]:
                        break
        except Boom:
            err = True
    tick()
    reach = n if c["f"] == "track_progress" or not c["stop"] else min(n, c["stop"])
    expect(bool(err) == (fail is not None and fail < reach), lambda: "%s: a failure of task %s was %s" % (what, fail, "raised" if err else "swallowed"))
    m = reach if not err else fail + 1
    expect(calls == [(t, c["kw"]) for t in tasks[:m]], lambda: "%s: tasks run: %s" % (what, calls))
    if not err:
        expect(got == [("r", t) for t in tasks[:m]], lambda: "%s: results %s" % (what, got))
    text = out.getvalue()
    if c["nobar"]:
        expect(text == "", lambda: "%s: no_bar printed %r" % (what, text))
    else:
        full = not err and not (c["f"] != "track_progress" and 0 < c["stop"] <= n)
        expect(text.endswith("\n") == full, lambda: "%s: printed %r" % (what, text))
        shown = re.findall(r"\] (\d+)/(\d+)" if n else r"completed: (\d+)", text)
        k = m if full else m - 1
        expect(not n or text.startswith("[%s] 0/" % (" " * (c["width"] or 50))), lambda: "%s: printed %r with bar width %s" % (what, text, c["width"]))
        expect(shown == ([(str(i), str(n)) for i in range(k + 1)] if n else ["0"]), lambda: "%s: progress shown %s" % (what, shown))
    return m, bool(err)


def half(t):
    return ("half", t)


def check_parallel(c):
    """The bar of a parallel run counts every task (after the skipped ones)."""
    P = modules()["bar"]
    os.environ["COLUMNS"] = "80"
    out, n, k = io.StringIO(), c["n"], c["nproc"] * c["chunk"] if c["skip"] else 0
    tasks = list(range(n))
    got = P.track_parallel_progress(half, tasks if c["form"] == "list" else (iter(tasks), n), c["nproc"], chunksize=c["chunk"], skip_first=c["skip"], keep_order=c["order"], file=out, no_bar=c["nobar"], bar_width=9)
    tick()
    text = out.getvalue()
    expect((got if c["order"] else sorted(got)) == [half(t) for t in tasks], lambda: "results %s" % got)
    if c["nobar"]:
        expect(text == "", lambda: "no_bar printed %r" % text)
    else:
        expect(text.endswith("\n") and text.startswith("[%s] 0/%d," % (" " * 9, n - k)), lambda: "printed %r" % text)
        shown = re.findall(r"\] (\d+)/(\d+)", text)
        expect(shown == [(str(i), str(n - k)) for i in range(n - k + 1)], lambda: "progress shown %s for %d tasks" % (shown, n - k))
    return k


def check_bad_tasks(c):
    P = modules()["bar"]
    bad = {"int": 5, "none": None, "one": ([1],), "three": ([1], 1, 2), "swapped": (1, [1]), "float": ([1], 1.0)}[c["bad"]]
    with clock():
        try:
            if c["f"] == "track_progress":
                P.track_progress(lambda t: t, bad, file=io.StringIO())
            else:
                list(P.track_iter_progress(bad, file=io.StringIO()))
        except Exception:
            tick()
            return "rejected"
    expect(False, lambda: "%s accepted tasks %r" % (c["f"], bad))


def build(tier):
    big = tier == "thorough"
    modules()
    sc = []
    d = 6 if big else 5
    sc.append(product_scope("timer", [("start", [True, False]), ("tmpl", [None, "took {:.1f}s"]), ("depth", [d]), ("code", range(len(OPS) ** d))], check_timer, note="every sequence of %d timer operations and clock advances" % d))
    d = 8 if big else 7
    sc.append(product_scope("check_time", [("depth", [d]), ("code", range(len(IDS) ** d)), ("ids", sorted(KEYS))], lambda c: check_check_time(dict(c, keys=KEYS[c["ids"]])), note="every sequence of %d checks of two timers and clock advances" % d))
    d = 5 if big else 4
    sc.append(product_scope("bar", [("total", [0, 1, 2, 3, 5, 7]), ("width", [None, 10, 1]), ("cols", [80, 200, 60, 20]), ("start", [True, False]), ("depth", [d]), ("code", range(len(STEPS) ** d))], check_bar,
                            note="sequences of %d updates by one or two tasks over time, bar and terminal widths" % d))
    sc.append(product_scope("resized", [("total", [3, 5]), ("width", [None, 10]), ("cols", [200, 120, 60]), ("start", [True, False]), ("resize", [True]), ("depth", [d]), ("code", range(len(STEPS) ** d))], check_bar, note="the terminal changes its width between updates"))
    sc.append(product_scope("far", [("total", [10, 99, 100, 101, 1000, 65536, 123457, 10 ** 7]), ("cuts", [1, 2, 3, 7, 60, 101]), ("dt", [0.01, 0.49, 3.0, 61.0, 3599.9, 90000.0]), ("cols", [80, 300, 400]), ("width", [50, 100, 200])], check_far, note="totals up to ten million, days of work, wide terminals"))
    sc.append(product_scope("track", [("f", ["track_progress", "track_iter_progress"]), ("n", range(7)), ("form", ["list", "pair", "pairlist"]), ("fail", [None, 0, 1, 3, 5]), ("kw", [{}, {"a": 1, "b": None}]), ("nobar", [False, True]), ("stop", [0, 1, 3]), ("width", [None, 7])],
                            lambda c: check_track(c) if not ((c["f"] == "track_progress" and c["stop"]) or (c["f"] != "track_progress" and (c["nobar"] or c["kw"]))) else "outside", note="sequential progress tracking over task counts, forms, failing tasks and early exits"))
    sc.append(product_scope("parallel", [("n", [5, 7]), ("nproc", [1, 2]), ("chunk", [1, 2]), ("skip", [False, True]), ("order", [True, False]), ("nobar", [False, True]), ("form", ["list", "pair"])], check_parallel, note="progress shown by parallel tracking, real worker processes"))
    sc.append(product_scope("bad_tasks", [("f", ["track_progress", "track_iter_progress"]), ("bad", ["int", "none", "one", "three", "swapped", "float"])], check_bad_tasks))
    return sc, dict(budget=300 if tier == "quick" else 1500,
                    how="direct execution of Timer, check_time, ProgressBar, track_progress and track_iter_progress on every operation sequence of the listed depth, under a clock owned by the explorer",
                    assumptions=["the modules read the time through the time module's clocks; time only passes between operations"])
