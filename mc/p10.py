"""P10: multi-process edge generation under every schedule."""
import itertools, sys
import numpy as np
from core import Scope, product_scope, list_scope, expect, tick
import ctlpool
from p09 import edges, onehot, eq, digits

IMGS = {}


def image(k):
    """A few label/instance maps with classes of different layout."""
    if k not in IMGS:
        if k == 5:                                  # instances with interiors: their boundaries differ from the class boundaries
            lab = np.zeros((12, 18), np.uint8)
            inst = np.zeros((12, 18), np.int32)
            for i, l in enumerate((1, 2, 3)):
                lab[2:10, 6 * i:6 * i + 5] = l
                inst[2:10, 6 * i:6 * i + 5] = l
                inst[2:6, 6 * i:6 * i + 5] = 1000 * l
                inst[6:9, 6 * i:6 * i + 5] = 1000 * l + 1 + i
            IMGS[k] = lab, inst
            return IMGS[k]
        h, w = [(3, 4), (4, 3), (2, 5), (5, 5), (3, 4)][k % 5]
        y, x = np.mgrid[:h, :w]
        lab = [(x + y) % 3, (x > 1) + 2 * (y > 1), (x // 2) % 4, (x * y) % 4, np.where(y == 1, 3, x % 2)][k % 5]
        lab = (lab % 4).astype(np.uint8)
        inst = np.where(lab >= 2, lab.astype(np.int32) * 1000 + (x % 2), lab).astype(np.int32)
        if k % 2:
            inst = np.where(lab == 1, 1000 + (y % 3), inst).astype(np.int32)
        IMGS[k] = lab, inst
    return IMGS[k]


ORDERS = [[1, 2, 3], [3, 1, 2], [2, 3, 1], (3, 2, 1)]


def call(kind, k, nproc, radius, ignore, nlab=4, order=0):
    from pyEdgeEval.edge_tools import mask2edge
    lab, inst = image(k)
    oh = onehot(lab, range(nlab))
    kw = dict(mask=oh, ignore_indices=list(ignore), nproc=nproc, radius=radius)
    if kind == "inst":
        kw.update(inst_mask=inst, inst_labelIds=ORDERS[order % len(ORDERS)])
    got = mask2edge(run_type="mp", instance_sensitive=kind == "inst", **kw)
    want = edges(lab, range(nlab), ignore, radius, inst=inst if kind == "inst" else None)
    return np.asarray(got), want


def with_yields():
    """Worker tasks can be preempted around the boundary computation (between reading and writing shared memory)."""
    m = sys.modules["pyEdgeEval.edge_tools.mask2edge_mp"]
    real = getattr(m, "mask2bdry", None)
    if real is None:
        return m, None

    def wrapped(*a, **k):
        ctlpool.yield_point()
        r = real(*a, **k)
        ctlpool.yield_point()
        return r
    m.mask2bdry = wrapped
    return m, real


def check_sched(c):
    """All schedules of one call."""
    mod, real = with_yields() if c["preempt"] is not None else (sys.modules["pyEdgeEval.edge_tools.mask2edge_mp"], None)
    try:
        def run(ch):
            ctl = ctlpool.Controller(ch, c["preempt"])
            with ctlpool.installed(ctl, mod):
                got, want = call(c["kind"], c["image"], c["nproc"], c["radius"], c["ignore"], c.get("labels", 4), c.get("order", 0))
            eq(got, want, lambda: "schedule %s (%d workers)" % (ctl.trace, c["nproc"]))
            tick()
        n, done = ctlpool.explore(run)
    finally:
        if real is not None:
            mod.mask2bdry = real
    return n


def check_history(c):
    """A sequence of calls in one process; the last schedule choice of each call is enumerated as well."""
    mod = sys.modules["pyEdgeEval.edge_tools.mask2edge_mp"]
    def run(ch):
        earlier = []
        for step in c["calls"]:
            kind, k, nproc, r, ign = step
            ctl = ctlpool.Controller(ch)
            with ctlpool.installed(ctl, mod):
                got, want = call(kind, k, nproc, r, ign)
            eq(got, want, lambda: "call %s of sequence %s, schedule %s" % (step, c["calls"], ctl.trace))
            earlier.append((step, got, want))
            tick()
        for step, got, want in earlier:
            eq(got, want, lambda: "result of call %s after the whole sequence %s" % (step, c["calls"]))
    n, done = ctlpool.explore(run, limit=c["limit"])
    return n


def check_real(c):
    """The operating system's own schedule, as conformance of the controlled pool."""
    for _ in range(2):
        got, want = call(c["kind"], c["image"], c["nproc"], c["radius"], c["ignore"], c.get("labels", 4), c["order"])
        eq(got, want, lambda: "real pool, %d workers" % c["nproc"])
        from pyEdgeEval.edge_tools import mask2edge
        lab, inst = image(c["image"])
        oh = onehot(lab, range(4))
        kw = dict(mask=oh, ignore_indices=list(c["ignore"]), radius=c["radius"])
        if c["kind"] == "inst":
            kw.update(inst_mask=inst, inst_labelIds=ORDERS[c["order"]])
        seq = np.asarray(mask2edge(run_type="loop", instance_sensitive=c["kind"] == "inst", **kw))
        expect(np.array_equal(got[:4], seq) and got.dtype == seq.dtype, "multi-process and sequential results differ")
        tick()
    return int(got.sum())


def check_real_large(c):
    """Many labels, larger images: equality with the sequential version under the OS schedule, several calls in one process."""
    from pyEdgeEval.edge_tools import mask2edge
    s, kept = 0, []
    for K, h, w, cell, r in c["calls"]:
        y, x = np.mgrid[:h, :w]
        lab = ((y // cell * 5 + x // cell * 3) % K).astype(np.uint8)
        inst = np.where(lab % 2 == 1, lab.astype(np.int32) * 1000 + (x // 2 + y) % 300, lab).astype(np.int32)
        kw = dict(mask=onehot(lab, range(K)), ignore_indices=[i for i in c["ignore"] if i < K], radius=r)
        if c["kind"] == "inst":
            kw.update(inst_mask=inst, inst_labelIds=[l for l in range(K) if l % 2 == 1][::-1])
        got = np.asarray(mask2edge(run_type="mp", instance_sensitive=c["kind"] == "inst", nproc=c["nproc"], **kw))
        seq = np.asarray(mask2edge(run_type="loop", instance_sensitive=c["kind"] == "inst", **kw))
        tick()
        expect(got.shape == seq.shape and np.array_equal(got, seq) and got.dtype == seq.dtype, lambda: "multi-process and sequential results differ for %s (call %s)" % (c, (K, h, w, cell, r)))
        kept.append((got, seq))
        s += int(seq.sum())
    expect(all(np.array_equal(got, seq) for got, seq in kept), lambda: "an earlier result was changed by a later call (%s)" % c)
    return s


def build(tier):
    import pyEdgeEval.edge_tools.mask2edge_mp
    big = tier == "thorough"
    sc = []
    KI = ["sem", "inst"]
    sc.append(product_scope("schedules", [("kind", KI), ("image", [5, 1, 3]), ("nproc", [1, 2, 3, 4] + ([5] if big else [])), ("radius", [1, 2]), ("ignore", [(), (3,)]), ("labels", [4, 5] + ([6] if big else [])), ("order", range(4) if big else [2]), ("preempt", [None])], check_sched,
                            note="every assignment of labels to workers and every completion order (tasks atomic)", timeout=900))
    sc.append(product_scope("preemptions", [("kind", KI), ("image", [1, 4]), ("nproc", [2, 3]), ("radius", [1]), ("ignore", [(0,)]), ("labels", [3, 4]), ("preempt", [1, 2, 3] if big else [1, 2])], check_sched,
                            note="tasks preempted before and after the boundary computation, bounded preemptions", timeout=900))
    calls = [("sem", 0, 2, 1, ()), ("inst", 1, 2, 2, (3,)), ("sem", 2, 1, 2, (0,)), ("inst", 3, 3, 1, ()), ("inst", 0, 2, 1, ()), ("sem", 4, 2, 1, ())]
    seqs = list(itertools.product(calls, repeat=2)) + (list(itertools.product(calls, repeat=3)) if big else [])
    sc.append(list_scope("call_sequences", [dict(calls=list(s), limit=6) for s in seqs], check_history, note="every sequence of two (three) different calls, first 6 schedules each", timeout=600))
    sc.append(product_scope("real_pool", [("kind", KI), ("image", range(6)), ("nproc", [1, 2, 4, 7]), ("radius", [2, 1] if big else [1]), ("order", range(4)), ("ignore", [(), (1,)])], check_real, note="the OS schedules; equality with the sequential version", timeout=300))
    sizes = [(12, 9, 31, 2, 1), (34, 40, 60, 5, 2), (2, 3, 300, 3, 1), (20, 70, 50, 6, 3), (9, 1, 40, 1, 1)]
    sc.append(product_scope("real_large", [("kind", KI), ("nproc", [1, 2, 3, 8, 16]), ("ignore", [(), (0, 2)]), ("calls", [list(p) for p in itertools.permutations(sizes, 2)])], check_real_large, note="up to 34 labels and 16 workers, larger images, two calls after each other; the OS schedules", timeout=300))
    import p09
    sc.append(product_scope("options", [("cell", [2, 3]), ("radii", [(1, 1.38, 3.3)]), ("mp", [1, 3]), ("code", range(0, 4 ** 9, 1511 if big else 9001))], p09.check_options, note="approximate distances and SciPy, fractional radii: multi-process, sequential and transforms against the definition", timeout=300))
    sc.append(product_scope("layouts", [("shape", [(5, 7)] + ([(7, 4), (1, 6)] if big else [])), ("mask", p09.LAYOUTS), ("mtype", ["uint8"] + (["bool"] if big else [])), ("inst", p09.LAYOUTS), ("itype", ["int32"] + (["uint16", "int64"] if big else [])), ("ltype", ["uint8"]), ("mp", [2])], p09.check_layout, note="memory layouts (and types) of the masks", timeout=300))
    sc.append(product_scope("instances_apart", [("shape", [(2, 3)]), ("states", p09.APART), ("channels", [3]), ("inst_labels", [[(2, 1)]]), ("ignore", [[[]]]), ("radii", [(1,)]), ("full", [False]), ("mp", [2]), ("code", range(0, 5 ** 6, 97 if big else 997))], p09.check_inst, note="instances that reach beyond the pixels of their class", timeout=300))
    sc.append(product_scope("overlapping", [("shape", [(2, 2), (2, 3)]), ("K", [3, 4]), ("ignore", [[[], [2]]]), ("radii", [(2,)]), ("mp", [2]), ("code", range(0, 8 ** 4, 31 if big else 127))], p09.check_overlap, note="overlapping classes and pixels without a class", timeout=300))
    sc.append(product_scope("mask_types", [("shape", [(7, 4)]), ("mask", ["C", "swapped"]), ("mtype", ["bool"]), ("inst", ["C", "F"]), ("itype", ["uint16", "int64"]), ("ltype", ["uint8"]), ("mp", [3])], p09.check_layout, note="types of the masks", timeout=300))
    return sc, dict(budget=700 if tier == "quick" else 3000,
                    how="direct execution of mp_mask2edge / mp_instance_mask2edge with real forked workers whose task order is owned by the explorer (depth-first over all scheduling choices); compared with the sequential definition",
                    assumptions=["between yield points worker code is atomic; workers that have not run yet are interchangeable"])
