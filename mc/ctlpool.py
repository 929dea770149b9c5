"""A process pool whose schedule is owned by the explorer.

Workers are real forked processes (private memory, pickled functions, arguments, results and exceptions, like
multiprocessing.Pool), but only one of them ever runs: a worker advances when the controller picks it, up to its
next yield point or the end of its chunk.  The controller's choices are taken from a Chooser, so that a stateless
depth-first search enumerates every schedule."""
import contextlib, itertools, os, pickle, signal, struct


class Chooser:
    """Replays a prefix of choices, then takes the first alternative; records the branching seen."""

    def __init__(self, prefix=()):
        self.prefix, self.log = list(prefix), []

    def choose(self, n):
        k = len(self.log)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("schedule does not replay: choice %d of %d" % (c, n))
        self.log.append((c, n))
        return c

    def next_prefix(self):
        log = self.log
        for k in range(len(log) - 1, -1, -1):
            c, n = log[k]
            if c + 1 < n:
                return [x for x, _ in log[:k]] + [c + 1]
        return None


def explore(run, limit=None):
    """run(chooser) executed once per schedule; returns the number of schedules and whether all were covered."""
    prefix, n = [], 0
    while prefix is not None:
        ch = Chooser(prefix)
        run(ch)
        n += 1
        prefix = ch.next_prefix()
        if limit and n >= limit:
            return n, prefix is None
    return n, True


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    return pickle.loads(get(struct.unpack("<Q", get(8))[0]))


_child = None       # (rfd, wfd) inside a worker


def yield_point():
    if _child:
        _send(_child[1], ("yield",))
        if _recv(_child[0]) != "go":
            os._exit(1)


class _Worker:
    def __init__(self, pool, initializer, initargs):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            global _child
            try:
                os.close(a[1]), os.close(b[0])
                for w in pool.workers:
                    os.close(w.w), os.close(w.r)
                _child = (a[0], b[1])
                self.loop(initializer, initargs)
            finally:
                os._exit(1)
        os.close(a[0]), os.close(b[1])
        self.w, self.r, self.chunk, self.used = a[1], b[0], None, False

    def loop(self, initializer, initargs):
        """Runs in the child."""
        first = True
        while True:
            try:
                msg = _recv(_child[0])
            except EOFError:
                os._exit(0)
            if first and initializer is not None:
                initializer(*initargs)      # a failing initializer ends the worker
            first = False
            func, items, star = msg
            out = []
            for it in items:
                try:
                    out.append((True, func(*it[0], **it[1]) if star == "apply" else func(*it) if star else func(it)))
                except Exception as e:
                    out.append((False, e))
            try:
                _send(_child[1], ("done", out))
            except Exception as e:
                _send(_child[1], ("done", [(False, RuntimeError("result cannot be sent: %r" % e))] * len(items)))

    def close(self):
        if self.pid:
            os.close(self.w), os.close(self.r)
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(self.pid, 0)
            self.pid = 0


class Job:
    def __init__(self, n):
        self.items, self.n, self.order = {}, n, []

    def put(self, base, results):
        for k, r in enumerate(results):
            self.items[base + k] = r
        self.order.append((base, len(results)))


class Controller:
    """Shared by all pools created during one run."""

    def __init__(self, chooser, preemptions=None):
        self.chooser, self.preemptions = chooser, preemptions
        self.trace, self.pools, self.last = [], [], None

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        p = Pool(self, processes, initializer, initargs)
        self.pools.append(p)
        return p

    def leftovers(self):
        """Workers still alive (neither joined nor terminated)."""
        return sum(1 for p in self.pools for w in p.workers if w.pid)

    def shutdown(self):
        for p in self.pools:
            p.terminate()


class Pool:
    def __init__(self, ctl, processes, initializer, initargs):
        self.ctl = ctl
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self.workers, self.queue, self.state = [], [], "run"
        for _ in range(processes):
            self.workers.append(_Worker(self, initializer, tuple(initargs)))
        self._processes = processes

    # ---- scheduling
    def step(self):
        """One scheduling decision; False when nothing can run."""
        opts = []
        fresh = False
        for k, w in enumerate(self.workers):
            if w.chunk is not None:
                opts.append(("run", k))
            elif self.queue:
                if not w.used:
                    if fresh:
                        continue        # workers that never ran are interchangeable
                    fresh = True
                opts.append(("pick", k))
        if not opts:
            return False
        c = self.ctl
        if c.preemptions is not None and c.last is not None and ("run", c.last) in opts:
            # continuing the same worker is free; anything else while it is mid-task costs a preemption
            same = ("run", c.last)
            opts = [same] + ([o for o in opts if o != same] if c.preemptions > 0 else [])
            k = c.chooser.choose(len(opts)) if len(opts) > 1 else 0
            if k:
                c.preemptions -= 1
        else:
            k = c.chooser.choose(len(opts)) if len(opts) > 1 else 0
        kind, i = opts[k]
        w = self.workers[i]
        c.trace.append((kind, i))
        if kind == "pick":
            job, base, func, items, star = self.queue.pop(0)
            w.chunk, w.used = (job, base, len(items)), True
            _send(w.w, (func, items, star))
        else:
            _send(w.w, "go")
        c.last = i
        try:
            msg = _recv(w.r)
        except EOFError:
            raise RuntimeError("a pool worker died while running a task")
        if msg[0] == "done":
            job, base, n = w.chunk
            w.chunk = None
            c.last = None
            job.put(base, msg[1])
        return True

    def submit(self, func, items, chunk, star=False):
        if self.state != "run":
            raise ValueError("Pool not running")
        items = list(items)
        job = Job(len(items))
        for i in range(0, len(items), chunk):
            self.queue.append((job, i, func, items[i:i + chunk], star))
        return job

    def need(self, cond):
        while not cond():
            if not self.step():
                raise RuntimeError("pool is stuck: a result is awaited that no task will produce")

    @staticmethod
    def value(r):
        if r[0]:
            return r[1]
        raise r[1]

    def _map(self, func, it, chunk, star):
        it = list(it)
        if chunk is None:
            chunk, extra = divmod(len(it), len(self.workers) * 4)
            chunk = chunk + 1 if extra else max(chunk, 1)
        job = self.submit(func, it, chunk, star)
        return job

    def _all(self, job):
        self.need(lambda: len(job.items) == job.n)
        for _, r in [(k, job.items[k]) for k in range(job.n)]:
            if not r[0]:
                raise r[1]
        return [job.items[k][1] for k in range(job.n)]

    def map(self, func, iterable, chunksize=None):
        return self._all(self._map(func, iterable, chunksize, False))

    def starmap(self, func, iterable, chunksize=None):
        return self._all(self._map(func, iterable, chunksize, True))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return Async(self, self.submit(func, [(args, kwds)], 1, "apply"), True, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Async(self, self._map(func, iterable, chunksize, False), False, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Async(self, self._map(func, iterable, chunksize, True), False, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+, not %d" % chunksize)
        return Iter(self, self.submit(func, iterable, chunksize), True)

    def imap_unordered(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+, not %d" % chunksize)
        return Iter(self, self.submit(func, iterable, chunksize), False)

    def close(self):
        if self.state == "run":
            self.state = "close"

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        if self.state == "close":
            while self.step():
                pass
            self.terminate()

    def terminate(self):
        self.state = "terminated"
        self.queue = []
        for w in self.workers:
            w.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Iter:
    def __init__(self, pool, job, ordered):
        self.pool, self.job, self.ordered, self.k = pool, job, ordered, 0
        self.ready = []

    def __iter__(self):
        return self

    def __next__(self, timeout=None):
        if self.k >= self.job.n:
            raise StopIteration
        if self.ordered:
            self.pool.need(lambda: self.k in self.job.items)
            r = self.job.items[self.k]
        else:
            self.pool.need(lambda: sum(n for _, n in self.job.order) > self.k)
            flat = [b + i for b, n in self.job.order for i in range(n)]
            r = self.job.items[flat[self.k]]
        self.k += 1
        return Pool.value(r)
    next = __next__


class Async:
    def __init__(self, pool, job, single, cb, ecb):
        self.pool, self.job, self.single, self.cb, self.ecb = pool, job, single, cb, ecb

    def ready(self):
        return len(self.job.items) == self.job.n

    def wait(self, timeout=None):
        self.pool.need(self.ready)

    def successful(self):
        return all(r[0] for r in self.job.items.values())

    def get(self, timeout=None):
        try:
            v = self.pool._all(self.job)
        except Exception as e:
            if self.ecb:
                self.ecb(e)
            raise
        v = v[0] if self.single else v
        if self.cb:
            self.cb(v)
        return v


@contextlib.contextmanager
def installed(ctl, *modules):
    """Every way the code under test may name a pool leads to the controlled one."""
    import multiprocessing, multiprocessing.pool
    saved = []

    def patch(obj, name, val):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)
    real = {multiprocessing.pool.Pool, multiprocessing.Pool}
    names = [multiprocessing.Pool, multiprocessing.pool.Pool]
    patch(multiprocessing, "Pool", ctl.Pool)
    patch(multiprocessing.pool, "Pool", ctl.Pool)
    for m in modules:
        for n, v in list(vars(m).items()):
            if any(v is r or v == r for r in names):
                patch(m, n, ctl.Pool)
    try:
        yield ctl
    finally:
        for obj, name, val in reversed(saved):
            setattr(obj, name, val)
        ctl.shutdown()
