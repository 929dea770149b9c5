"""P14: parallel evaluation under every schedule."""
import io, itertools, multiprocessing, os, sys
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
import ctlpool

MODS = ("pyEdgeEval.utils.progressbar", "pyEdgeEval.utils", "pyEdgeEval.common.binary_label.calculate_metrics",
        "pyEdgeEval.common.multi_label.calculate_metrics", "pyEdgeEval.common.utils")


def mods():
    return [sys.modules[m] for m in MODS if m in sys.modules and hasattr(sys.modules[m], "__dict__")]


class Bad(Exception):
    pass


_init = []


def initializer(*a):
    _init.append(a)


def job(x):
    if isinstance(x, tuple) and x[0] == "fail":
        raise Bad("task %d" % x[1])
    ctlpool.yield_point()
    return ("r", x, tuple(_init))


def plain(x):
    return ("r", x, tuple(_init))


FALSY = [None, 0, "", False, (), [], {}, 0.0, None, np.zeros(0)]


def odd(x):
    ctlpool.yield_point()
    return FALSY[x]


def plain_odd(x):
    return FALSY[x]


def same(a, b):
    return type(a) is type(b) and (a.shape == b.shape if isinstance(a, np.ndarray) else a == b)


def check_odd(c):
    """Results are passed on whatever they are (None and other empty values included)."""
    from pyEdgeEval.utils import track_parallel_progress
    tasks = list(c["tasks"])
    want = [FALSY[i] for i in tasks]

    def judge(got, how):
        tick()
        expect(isinstance(got, list) and len(got) == len(want), lambda: "%s: results %s for tasks whose results are %s" % (how, got, want))
        if c["keep"]:
            expect(all(same(a, b) for a, b in zip(got, want)), lambda: "%s: results %s, expected %s" % (how, got, want))
        else:
            left = list(got)
            for w in want:
                k = [i for i, g in enumerate(left) if same(g, w)]
                expect(k, lambda: "%s: results %s, expected %s" % (how, got, want))
                del left[k[0]]

    def go(ch):
        ctl = ctlpool.Controller(ch, None)
        with ctlpool.installed(ctl, *mods()):
            got = track_parallel_progress(odd, list(tasks), c["nproc"], chunksize=c["chunk"], keep_order=c["keep"], skip_first=c["skip"], file=io.StringIO())
        judge(got, "schedule %s" % ctl.trace)
    n, _ = ctlpool.explore(go)
    from pyEdgeEval.utils import track_progress
    for form in (tasks, (iter(tasks), len(tasks))):
        judge(track_progress(plain_odd, form, file=io.StringIO()), "sequential")
    if c["real"]:
        judge(track_parallel_progress(plain_odd, list(tasks), c["nproc"], chunksize=c["chunk"], keep_order=c["keep"], skip_first=c["skip"], file=io.StringIO()), "real pool")
    return n


def plain_fail(x):
    if isinstance(x, tuple):
        raise Bad("task %d" % x[1])
    return ("r", x, tuple(_init))


def check_track(c):
    """track_parallel_progress: every schedule."""
    from pyEdgeEval.utils import track_parallel_progress
    T = c["tasks"]
    tasks = [("fail", i) if i in c["fail"] else i * 10 for i in range(T)]
    init = {"none": {}, "init": dict(initializer=initializer), "args": dict(initializer=initializer, initargs=(1, "x"))}[c["init"]]
    want_init = {"none": (), "init": ((),), "args": ((1, "x"),)}[c["init"]]
    func = job if c["preempt"] is not None else plain_fail

    def go(ch):
        arg = list(tasks)
        if c["form"] == "pair":
            arg = (iter(list(tasks)), T)
        elif c["form"] == "pairlist":
            arg = (list(tasks), T)
        ctl = ctlpool.Controller(ch, c["preempt"])
        bar = io.StringIO()
        err = got = None
        with ctlpool.installed(ctl, *mods()):
            try:
                got = track_parallel_progress(func, arg, c["nproc"], chunksize=c["chunk"], skip_first=c["skip"], keep_order=c["keep"], file=bar, no_bar=c["nobar"], **init)
            except Bad as e:
                err = e.with_traceback(None)
            left = ctl.leftovers()
        if c["form"] == "list":
            expect(arg == tasks, "the task list was modified")
        tick()
        where = lambda: "schedule %s of %s" % (ctl.trace, {k: c[k] for k in ("tasks", "nproc", "chunk", "fail", "keep")})
        expect(left == 0, lambda: "%s: %d worker processes are left running" % (where(), left))
        if c["fail"]:
            expect(err is not None, lambda: "%s: a failing task was swallowed, results %s" % (where(), got))
            expect(any(str(err) == "task %d" % i for i in c["fail"]), lambda: "%s: raised %r" % (where(), err))
            return
        expect(err is None, lambda: "%s: raised %r" % (where(), err))
        want = [("r", x, want_init) for x in tasks]
        expect(isinstance(got, list) and len(got) == T, lambda: "%s: %d results for %d tasks" % (where(), len(got), T))
        if c["keep"]:
            expect(got == want, lambda: "%s: results %s" % (where(), got))
        else:
            expect(sorted(got) == sorted(want), lambda: "%s: results %s" % (where(), got))
        if c["nobar"]:
            expect(bar.getvalue() == "", "no_bar still printed")
    n, done = ctlpool.explore(go)
    return n


def check_real(c):
    """The OS pool (conformance), failing tasks included."""
    from pyEdgeEval.utils import track_parallel_progress
    T = c["tasks"]
    tasks = [("fail", i) if i in c["fail"] else i * 10 for i in range(T)]
    err = got = None
    try:
        got = track_parallel_progress(plain_fail, tasks, c["nproc"], chunksize=c["chunk"], keep_order=c["keep"], file=io.StringIO(), no_bar=False)
    except Bad as e:
        err = e.with_traceback(None)
    tick()
    expect(not multiprocessing.active_children(), lambda: "%d worker processes are left running" % len(multiprocessing.active_children()))
    if c["fail"]:
        expect(err is not None, lambda: "a failing task was swallowed: %s" % (got,))
    else:
        want = [("r", x, ()) for x in tasks]
        expect(got == want if c["keep"] else sorted(got) == sorted(want), lambda: "results %s" % (got,))
    return T


class Two(Exception):
    """An error with an own constructor."""
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


ERRORS = [Bad, StopIteration, StopAsyncIteration, EOFError, BrokenPipeError, FileNotFoundError, AssertionError, KeyError, IndexError, ValueError, TimeoutError, NotImplementedError, MemoryError, Two]


def task_of(x):
    if isinstance(x, tuple):
        raise ERRORS[x[2]]("task %d" % x[1])
    return ("r", x)


def sample_of(s):
    if s["k"] < 0:
        raise ERRORS[s["e"]]("task")
    return tuple(np.array(a, float) for a in IMGS[s["k"]])


def check_errors(c):
    """Whatever a task fails with, the run fails (with that error, or one that tells about it)."""
    from pyEdgeEval.utils import track_parallel_progress, track_progress
    from pyEdgeEval.common import binary_label, multi_label
    E = ERRORS[c["err"]]
    tasks = [("fail", i, c["err"]) if i == c["at"] else i for i in range(c["tasks"])]
    how = "%s raised by task %d of %d, " % (E.__name__, c["at"], c["tasks"])

    def judge(f, tag, *a, **kw):
        tick()
        try:
            got = f(*a, **kw)
        except Exception as e:
            expect(isinstance(e, E) or E.__name__ in "%s %s %s" % (type(e).__name__, e, e.__cause__), lambda: how + tag + ": failed with %r instead" % e)
        else:
            expect(False, lambda: how + tag + ": swallowed, result %s" % (got,))

    def go(ch):
        ctl = ctlpool.Controller(ch, None)
        with ctlpool.installed(ctl, *mods()):
            judge(track_parallel_progress, "%d workers, chunks of %d, keep_order=%s" % (c["nproc"], c["chunk"], c["keep"]), task_of, list(tasks), c["nproc"], chunksize=c["chunk"], keep_order=c["keep"], file=io.StringIO())
            left = ctl.leftovers()
        expect(left == 0, lambda: how + "%d workers left" % left)
    n, _ = ctlpool.explore(go)
    judge(track_progress, "sequential", task_of, list(tasks), file=io.StringIO())
    if c["real"]:
        judge(track_parallel_progress, "OS pool", task_of, list(tasks), c["nproc"], chunksize=c["chunk"], keep_order=c["keep"], file=io.StringIO())
        samples = [dict(name="img%d" % i, k=-1 if i == c["at"] else i, e=c["err"]) for i in range(c["tasks"])]
        for f in (binary_label.calculate_metrics, multi_label.calculate_metrics):
            for nproc in (1, c["nproc"]):
                judge(f, "calculate_metrics with %d workers" % nproc, sample_of, [0.25, 0.5, 0.75], samples, nproc=nproc)
        expect(not multiprocessing.active_children(), "worker processes are left running")
    return n


# ------------------------------------------------------------ dataset scores
IMGS = [([2, 1, 0], [2, 2, 2], [2, 1, 0], [4, 1, 0]), ([0, 0, 0], [0, 0, 0], [0, 0, 0], [3, 1, 0]), ([3, 3, 1], [4, 4, 4], [3, 3, 1], [9, 4, 1]),
        ([1, 1, 1], [1, 1, 1], [1, 1, 1], [1, 1, 1]), ([0, 2, 5], [5, 5, 5], [0, 2, 5], [0, 2, 5])]


def single(s):
    if s["k"] < 0:
        raise Bad("sample")
    ctlpool.yield_point()
    return tuple(np.array(a, float) for a in IMGS[s["k"]])


def eq(a, b):
    """Row for row, value for value."""
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, str):
        return a == b
    return abs(float(a) - float(b)) <= 1e-12


def check_scores(c):
    from pyEdgeEval.common import binary_label, multi_label
    samples = [dict(name="img%d" % k, k=k) for k in c["order"]]
    for tag, f in (("binary", binary_label.calculate_metrics), ("multi", multi_label.calculate_metrics)):
        thr = [0.25, 0.5, 0.75]
        bad = any(k < 0 for k in c["order"])
        seq = None if bad else f(single, thr, samples, nproc=1)
        def go(ch):
            ctl = ctlpool.Controller(ch, c["preempt"])
            par = err = None
            with ctlpool.installed(ctl, *mods()):
                try:
                    par = f(single, thr, samples, nproc=c["nproc"])
                except Bad as e:
                    err = e.with_traceback(None)
            tick()
            if bad:
                expect(err is not None, lambda: "%s: a failing sample was swallowed (schedule %s)" % (tag, ctl.trace))
            else:
                expect(err is None and eq(par, seq), lambda: "%s, %d workers, schedule %s:\n%s\nsequential\n%s" % (tag, c["nproc"], ctl.trace, par, seq))
        n, _ = ctlpool.explore(go)
        if c["real"]:
            try:
                par = f(single, thr, samples, nproc=c["nproc"])
                expect(not bad and eq(par, seq), lambda: "%s, real pool of %d" % (tag, c["nproc"]))
            except Bad:
                expect(bad, "good samples failed")
            tick()
    return n


def many(s):
    h = lambda i, m: ((s["k"] * 7919 + i * 104729) >> 2) % m
    cp = np.array([9.0 + h(i, 30) for i in range(5)])
    return cp, np.full(5, 60.0 + h(9, 9)), cp, cp + [h(20 + i, 40) for i in range(5)]


def check_many(c):
    """Many tasks on the OS pool."""
    from pyEdgeEval.utils import track_parallel_progress
    from pyEdgeEval.common import binary_label, multi_label
    n = c["n"]
    tasks = [(i * 7) % 1000 for i in range(n)]
    for keep in (True, False):
        got = track_parallel_progress(plain, list(tasks), c["nproc"], chunksize=c["chunk"], keep_order=keep, file=io.StringIO())
        want = [("r", x, ()) for x in tasks]
        tick()
        expect(got == want if keep else sorted(got) == sorted(want), lambda: "%d tasks, %d workers, chunks of %d, keep_order=%s: wrong results" % (n, c["nproc"], c["chunk"], keep))
    samples = [dict(name="img%d" % k, k=k) for k in range(n)]
    if n:
        for f in (binary_label.calculate_metrics, multi_label.calculate_metrics):
            thr = [0.1, 0.3, 0.5, 0.7, 0.9]
            expect(eq(f(many, thr, samples, nproc=c["nproc"]), f(many, thr, samples, nproc=1)), lambda: "%d samples, %d workers: parallel and sequential scores differ" % (n, c["nproc"]))
            tick()
    expect(not multiprocessing.active_children(), "worker processes are left running")
    return n


def build(tier):
    big = tier == "thorough"
    B = [False, True]
    sc = []
    base = [("fail", [()]), ("init", ["none"]), ("form", ["list"]), ("skip", [False]), ("nobar", [False])]
    def track(name, tasks, nproc, chunk, preempt, **over):
        ax = [("tasks", tasks), ("nproc", nproc), ("chunk", chunk), ("keep", [True, False]), ("preempt", preempt)] + [(k, over.get(k, v)) for k, v in base]
        sc.append(product_scope(name, ax, check_track, note="every assignment of chunks to workers and every completion order" if preempt == [None] else "preemptions inside tasks", timeout=600))
    track("schedules", [0, 1, 2, 3, 4, 5] + ([6] if big else []), [1, 2, 3] + ([4] if big else []), [1, 2, 3], [None])
    track("many_workers", [0, 1, 2, 3, 4], [4, 5, 7], [1, 2], [None])
    track("overlap", [2, 3, 4], [2, 3], [1, 2], [1, 2] + ([3] if big else []))
    track("failing", [1, 2, 3, 4], [1, 2, 3], [1, 2], [None], fail=[(0,), (1,), (3,), (0, 2), (1, 2)])
    track("options", [1, 3, 4], [1, 2, 3], [1, 2], [None], init=["none", "init", "args"], form=["list", "pair", "pairlist"], skip=B, nobar=B)
    for s in sc:
        if s.name == "failing":
            chk = s.check
            s.check = lambda c: chk(c) if max(c["fail"]) < c["tasks"] else "outside"
    sc.append(product_scope("real_pool", [("tasks", [0, 1, 5, 9]), ("nproc", [1, 2, 4]), ("chunk", [1, 2]), ("keep", [True, False]), ("fail", [(), (0,)])], lambda c: check_real(c) if not c["fail"] or c["tasks"] else "outside", note="the OS schedule"))
    odd_lists = [t for n in (1, 2) for t in itertools.product(range(10), repeat=n)] + [(0, 1, 8), (8, 0, 0, 5), (4, 9, 5, 6), (0, 0, 0), (1, 3, 7, 0)]
    sc.append(product_scope("empty_results", [("tasks", odd_lists), ("nproc", [1, 2]), ("chunk", [1, 2]), ("keep", [True, False]), ("skip", B), ("real", [False])], check_odd, note="tasks returning None and other empty values, every schedule"))
    sc.append(product_scope("empty_results_real", [("tasks", odd_lists[5::20] + odd_lists[-5:]), ("nproc", [2]), ("chunk", [1, 2]), ("keep", [True, False]), ("skip", [False]), ("real", [True])], check_odd, note="the OS schedule"))
    ne = range(len(ERRORS))
    sc.append(list_scope("errors", [dict(err=e, tasks=t, at=a, nproc=n, chunk=k, keep=keep, real=False) for e in ne for t in (1, 2, 4) for a in range(t) for n in (1, 2) for k in (1, 2) for keep in (True, False)], check_errors, note="every kind of error, every schedule"))
    sc.append(list_scope("errors_real", [dict(err=e, tasks=4, at=a, nproc=2, chunk=k, keep=keep, real=True) for e in ne for a in range(4) for k, keep in [((1, True), (1, False), (2, True), (2, False))[(e + a) % 4]]], check_errors, note="every kind of error, the OS schedule, dataset scores"))
    sc.append(product_scope("many", [("n", [1, 7, 16, 50, 200] + ([1000] if big else [])), ("nproc", [2, 3, 8, 13]), ("chunk", [1, 3, 16])], check_many, note="up to 200 (1000) tasks, the OS schedule"))
    orders = [o for n in (1, 2, 3) for o in itertools.permutations(range(4), n)]
    orders += [o for o in itertools.permutations(range(5), 4)][:: 5 if not big else 1]
    orders += [(0, -1), (-1, 2), (1, -1, 3)]
    sc.append(list_scope("scores", [dict(order=o, nproc=n, preempt=p, real=(i % 9 == 0)) for i, (o, n, p) in enumerate(itertools.product(orders, [2, 3], [None] if not big else [None, 1]))], check_scores, note="dataset scores of every ordered image selection, every schedule", timeout=600))
    return sc, dict(budget=600 if tier == "quick" else 3000,
                    how="direct execution of track_parallel_progress and calculate_metrics with real forked workers whose task order is owned by the explorer (depth-first over all scheduling choices); compared with the sequential results",
                    assumptions=["between yield points a task is atomic; workers that have not run yet are interchangeable"])
