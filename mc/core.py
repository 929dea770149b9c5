"""Bounded exhaustive exploration of the real code: build, explore, report."""
import atexit, ctypes, faulthandler, hashlib, json, mmap, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                  MKL_NUM_THREADS="1", PYTHONHASHSEED="0", MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/tmp/vmc-mpl"))
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMC_REPO", "/repo")
PY = "/opt/venv/bin/python"
SAN = os.environ.get("VMC_SAN")            # set: extensions built with the sanitizers and their own assertions (P29)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    pass


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class NoAnswer(Exception):
    """The check itself could not run (not a verdict on the code)."""


# ----------------------------------------------------------------- build
_main_pid = os.getpid()
_scratch = None


def scratch():
    """Per-run scratch directory, removed when the run's main process ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vmc-")
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if os.getpid() == _main_pid and SAN and os.path.basename(SAN).startswith("vmc-san-"):
        shutil.rmtree(SAN, ignore_errors=True)
    if os.getpid() == _main_pid and _scratch and os.path.basename(_scratch).startswith("vmc-"):
        shutil.rmtree(_scratch, ignore_errors=True)


SAN_FLAGS = ("-g1 -O1 -fno-omit-frame-pointer -fno-strict-overflow -UNDEBUG -w -fsanitize=address,undefined -fsanitize-recover=address,undefined "
             "-fno-sanitize=vptr,signed-integer-overflow")       # the package is built with wrapping arithmetic (-fno-strict-overflow)


def sanitized(prop):
    """Starts this program again with the sanitizer run time loaded."""
    libs = [subprocess.run(["/usr/bin/gcc", "-print-file-name=" + l], stdout=subprocess.PIPE, text=True).stdout.strip() for l in ("libasan.so", "libubsan.so")]
    if not all(os.path.isfile(os.path.realpath(l)) for l in libs):
        print("NO-ANSWER property=%s no sanitizer run time" % prop)
        os._exit(2)
    log = os.path.join(tempfile.gettempdir(), "vmc-san-%d" % os.getpid())
    os.makedirs(log, exist_ok=True)
    o = "log_path=%s/r:detect_leaks=0:halt_on_error=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1:print_stacktrace=1:use_sigaltstack=0" % log
    os.execve(PY, [PY, "-B"] + sys.argv, dict(os.environ, VMC_SAN=log, LD_PRELOAD=" ".join(libs), ASAN_OPTIONS=o, UBSAN_OPTIONS=o))


def _ignore(d, names):
    return [n for n in names if n == "__pycache__" or n.endswith((".so", ".pyc"))
            or (n in ("correspond_pixels.cpp", "nms.cpp") and d.endswith("_lib"))]


def boot():
    """Copy /repo's current sources to scratch, build the extensions there, import from there."""
    root = os.path.join(scratch(), "repo")
    if os.path.isdir(root):
        return root
    os.makedirs(root)
    for n in ("setup.py", "README.md", "requirements.txt", "pyproject.toml", "MANIFEST.in", "setup.cfg"):
        if os.path.exists(os.path.join(REPO, n)):
            shutil.copy(os.path.join(REPO, n), root)
    for n in ("pyEdgeEval", "scripts"):
        shutil.copytree(os.path.join(REPO, n), os.path.join(root, n), ignore=_ignore)
    lib = os.path.join(root, "pyEdgeEval", "_lib")
    h = hashlib.sha256()
    files = [os.path.join(VERIF, "mc", "rngshim.c"), os.path.join(root, "setup.py")]
    for d, _, fs in os.walk(lib):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(os.path.relpath(f, root if f.startswith(root) else VERIF).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    key = h.hexdigest()[:24] + ("-san" if SAN else "")
    cdir = os.path.join(VERIF, ".cache", "ext-" + key)
    sos = []
    if os.path.isdir(cdir):
        for f in os.listdir(cdir):
            shutil.copy(os.path.join(cdir, f), lib)
            sos.append(f)
    if len(sos) < 2:
        shim = os.path.join(scratch(), "rngshim.o")
        subprocess.check_call(["/usr/bin/gcc", "-O2", "-fPIC", "-c", os.path.join(VERIF, "mc", "rngshim.c"), "-o", shim])
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", LDFLAGS="-Wl,--wrap=erand48 " + shim, HOME="/root",
                   PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        env.pop("LD_PRELOAD", None)
        if SAN:
            env.update(CFLAGS=SAN_FLAGS, CXXFLAGS=SAN_FLAGS, LDFLAGS=env["LDFLAGS"] + " -fsanitize=address,undefined")
        r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=root, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoAnswer("extension build failed:\n" + r.stdout[-3000:])
        shutil.rmtree(os.path.join(root, "build"), ignore_errors=True)
        try:
            os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
            tmp = cdir + ".%d" % os.getpid()
            os.makedirs(tmp)
            for f in os.listdir(lib):
                if f.endswith(".so"):
                    shutil.copy(os.path.join(lib, f), tmp)
            try:
                os.rename(tmp, cdir)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
            # keep the cache small
            olds = sorted((os.path.join(VERIF, ".cache", d) for d in os.listdir(os.path.join(VERIF, ".cache"))), key=os.path.getmtime)
            for d in olds[:-6]:
                if d != cdir:
                    shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass
    sys.path.insert(0, root)
    import warnings
    warnings.filterwarnings("ignore")
    import cv2
    cv2.setNumThreads(0)
    try:
        import pyEdgeEval
        for m in ("_lib", "preprocess", "common.binary_label", "common.multi_label", "utils", "edge_tools", "datasets", "evaluators"):
            try:
                __import__("pyEdgeEval." + m)
            except Exception:
                pass            # reported by the checks that use it
    except Exception:
        raise Violation("the package cannot be imported:\n" + traceback.format_exc())
    assert pyEdgeEval.__file__.startswith(root)
    return root


class Rng:
    """Handle on the random generator compiled into the matcher."""

    def __init__(self):
        import glob
        so = glob.glob(os.path.join(scratch(), "repo", "pyEdgeEval", "_lib", "correspond_pixels*.so"))
        self.lib = None
        if so:
            try:
                lib = ctypes.CDLL(so[0])
                lib.mcrng_seed.argtypes = [ctypes.c_uint64]
                lib.mcrng_deviate.argtypes = [ctypes.c_long, ctypes.c_double]
                lib.mcrng_count.restype = ctypes.c_long
                self.lib = lib
            except (OSError, AttributeError):
                pass

    def start(self, seed=1, devs=()):
        if self.lib:
            self.lib.mcrng_seed(seed)
            for p, v in devs:
                self.lib.mcrng_deviate(p, v)

    def count(self):
        return self.lib.mcrng_count() if self.lib else 0


# ----------------------------------------------------------------- exploration
class Scope:
    """A finite, indexable space of cases.

    n: number of cases; case(i): decoded case (picklable/printable); check(case): raises on violation and
    returns an 'observation' (hashable) used for vacuity statistics.  steps: how many transitions
    (calls of the real code compared with the model) one case makes, unless it calls tick();
    states: how many inputs one (batched) case covers."""

    def __init__(self, name, n, case, check, steps=1, timeout=120, note="", states=1):
        self.name, self.n, self.case, self.check = name, int(n), case, check
        self.steps, self.timeout, self.note, self.states = steps, timeout, note, states


def product_scope(name, axes, check, **kw):
    """axes: list of (label, sequence). A case is a dict label -> value; the first axis varies slowest."""
    axes = [(a, list(v) if not hasattr(v, "__getitem__") else v) for a, v in axes]
    n = 1
    for _, v in axes:
        n *= len(v)

    def case(i):
        d = {}
        for a, v in reversed(axes):
            i, k = divmod(i, len(v))
            d[a] = v[k]
        return {a: d[a] for a, _ in axes}
    return Scope(name, n, case, check, **kw)


def list_scope(name, cases, check, **kw):
    cases = list(cases)
    return Scope(name, len(cases), lambda i: cases[i], check, **kw)


class Counter:
    """Transitions counted by a check that makes a varying number of steps."""
    transitions = 0


def tick(n=1):
    Counter.transitions += n


def _silence():
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0), os.dup2(dn, 1), os.dup2(dn, 2)


def short(x, lim=1500):
    import numpy as np
    def f(v):
        if isinstance(v, np.ndarray):
            return dict(dtype=str(v.dtype), shape=list(v.shape), data=v.tolist() if v.size <= 400 else "...")
        if isinstance(v, (np.integer,)): return int(v)
        if isinstance(v, (np.floating,)): return float(v)
        if isinstance(v, dict): return {str(k): f(w) for k, w in v.items()}
        if isinstance(v, (list, tuple)): return [f(w) for w in v]
        if isinstance(v, (str, int, float, bool, type(None))): return v
        return repr(v)
    s = f(x)
    t = json.dumps(s)
    return s if len(t) <= lim else t[:lim] + "..."


class Explorer:
    NW = int(os.environ.get("VMC_WORKERS", "8"))
    SKIP = int(os.environ.get("VMC_SKIP", "1"))          # for quick experiments only: every n-th case (then reported as not exhaustive)

    def __init__(self, prop, tier, scopes, budget):
        self.prop, self.tier, self.scopes, self.budget = prop, tier, scopes, budget
        self.known = known_findings(prop)

    def run_case(self, si, i):
        sc = self.scopes[si]
        try:
            case = sc.case(i)
        except Exception:
            raise NoAnswer("case generator failed: " + traceback.format_exc())
        try:
            return case, sc.check(case), None
        except Violation as e:
            return case, None, str(e)
        except NoAnswer:
            raise
        except (MemoryError,):
            raise NoAnswer("out of memory")
        except Exception:
            return case, None, "exception: " + traceback.format_exc()[-3000:]

    # worker protocol, in shared memory: per worker [scope][case][finished] and the start time of the current case;
    # one stop flag.  ctypes items are stored in one write (struct.pack_into would pass through zero).

    def _worker(self, w, st, ts, outdir, deadline):
        _silence()
        os.setpgid(0, 0)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        faulthandler.register(signal.SIGUSR1, file=open(os.path.join(outdir, "w%d.trace" % w), "w"), all_threads=True)
        obs = {}
        counts = [0] * len(self.scopes)
        capped = [False] * len(self.scopes)
        samples, known = {}, {}
        res = dict(violation=None)
        trans = 0
        try:
            for si, sc in enumerate(self.scopes):
                seen = obs.setdefault(si, set())
                start = (w + SEED) % self.NW
                st[3 * w] = si
                for i in range(start, sc.n, self.NW * self.SKIP if sc.n > 400 else self.NW):
                    now = time.monotonic()
                    if now > deadline:
                        capped[si] = True
                        break
                    if st[3 * self.NW]:
                        capped[si] = True
                        break
                    st[3 * w + 1] = i
                    ts[w] = now
                    Counter.transitions = 0
                    case, o, bad = self.run_case(si, i)
                    counts[si] += 1
                    trans += Counter.transitions or sc.steps
                    if bad is not None and any(m and m in bad for m, _ in self.known):
                        known[next(m for m, _ in self.known if m and m in bad)] = 1
                        o, bad = "known finding", None
                    if bad is not None:
                        res["violation"] = dict(scope=si, index=i, case=short(case), message=bad)
                        st[3 * self.NW] = 1
                        break
                    if len(seen) < 5000:
                        seen.add(hashlib.blake2b(repr(o).encode(), digest_size=8).digest())
                    if si not in samples and i >= sc.n // 3:
                        samples[si] = dict(scope=sc.name, index=i, case=short(case, 600), observed=short(o, 300))
                if res["violation"]:
                    break
            res["error"] = None
        except BaseException:
            res["error"] = traceback.format_exc()
            st[3 * self.NW] = 1
        res.update(known=list(known), counts=counts, capped=capped, trans=trans, samples=list(samples.values()),
                   obs={k: [x.hex() for x in v] for k, v in obs.items()})
        with open(os.path.join(outdir, "w%d.json" % w), "w") as f:
            json.dump(res, f)
        st[3 * w + 2] = 1
        os._exit(0)

    def explore(self):
        t0 = time.monotonic()
        deadline = t0 + self.budget
        shm = mmap.mmap(-1, 8 * (4 * self.NW + 1))
        st = (ctypes.c_int64 * (3 * self.NW + 1)).from_buffer(shm)
        ts = (ctypes.c_double * self.NW).from_buffer(shm, 8 * (3 * self.NW + 1))
        out = os.path.join(scratch(), "out")
        os.makedirs(out, exist_ok=True)
        pids, tries, viols, dead, crashes = {}, {}, [], [], []

        def launch(w):
            tries[w] = tries.get(w, 0) + 1
            st[3 * w] = st[3 * w + 1] = st[3 * w + 2] = 0
            ts[w] = time.monotonic()
            sys.stdout.flush(), sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    self._worker(w, st, ts, out, deadline)
                finally:
                    os._exit(3)
            pids[pid] = w

        def stop():
            st[3 * self.NW] = 1

        def lost(w, why, fatal=False):
            """A worker ended without a result: the case it was in is run alone, then after the cases that worker had before it,
            which decides.  Fatal signals that come back on other cases are memory corruption, whatever the heap looked like."""
            si, i = st[3 * w], st[3 * w + 1]
            again = self.isolated(si, i)
            if again is None and fatal:
                crashes.append("%s[%d]" % (self.scopes[si].name, i))
                step = self.NW * self.SKIP if self.scopes[si].n > 400 else self.NW
                again = self.isolated(si, i, list(range((w + SEED) % self.NW, i, step))[-300:])
                if again is None and len(crashes) >= 4:
                    again = "passes, but the process was ended by a fatal signal in %s" % ", ".join(crashes)
            if again is not None:
                viols.append(dict(scope=si, index=i, case=short(self.scopes[si].case(i)), message="%s; run alone: %s" % (why, again)))
                stop()
            elif tries[w] < 4 and not st[3 * self.NW]:
                print("note: worker %d restarted at %s[%d]: %s\n%s" % (w, self.scopes[si].name, i, why, self.trace(out, w)))
                launch(w)
            else:
                dead.append("worker lost at %s[%d] (%s) but the case passes alone\n%s" % (self.scopes[si].name, i, why, self.trace(out, w)))
                stop()

        for w in range(self.NW):
            launch(w)
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid:
                if pid in pids:
                    w = pids.pop(pid)
                    try:
                        os.killpg(pid, signal.SIGKILL)      # leftovers of that worker
                    except OSError:
                        pass
                    if not st[3 * w + 2]:
                        lost(w, "worker ended abnormally (status %d)" % status,
                             os.WIFSIGNALED(status) and os.WTERMSIG(status) in (4, 6, 7, 8, 11))
                continue
            now = time.monotonic()
            for p, w in list(pids.items()):
                si, i = st[3 * w], st[3 * w + 1]
                lim = self.scopes[min(si, len(self.scopes) - 1)].timeout
                if now - ts[w] > lim and not st[3 * w + 2]:
                    try:
                        os.kill(p, signal.SIGUSR1)
                        time.sleep(0.3)
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    pids.pop(p)
                    lost(w, "no answer within %d s" % lim)
            time.sleep(0.02)
        results = []
        for w in range(self.NW):
            f = os.path.join(out, "w%d.json" % w)
            if os.path.exists(f):
                results.append(json.load(open(f)))
        viols += [r["violation"] for r in results if r.get("violation")]
        errs = [r["error"] for r in results if r.get("error")] + dead
        if errs and not viols:
            raise NoAnswer(errs[0])
        return results, viols, time.monotonic() - t0

    @staticmethod
    def trace(out, w):
        try:
            return open(os.path.join(out, "w%d.trace" % w)).read()[-2000:]
        except OSError:
            return ""

    def isolated(self, si, i, before=()):
        """Run one case (after those in `before`) in a fresh child; None when it passes, else why not."""
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            _silence()
            try:
                t0 = time.monotonic()
                for j in before:
                    if time.monotonic() - t0 < self.scopes[si].timeout:
                        self.run_case(si, j)
                try:
                    _, _, bad = self.run_case(si, i)
                except NoAnswer:
                    bad = None
                os.write(wfd, json.dumps(bad).encode()[:60000])
            finally:
                os._exit(0)
        os.close(wfd)
        end = time.monotonic() + 2 * self.scopes[si].timeout
        done = False
        data = b""
        import select
        while time.monotonic() < end:
            rd, _, _ = select.select([r], [], [], 1.0)
            if rd:
                b = os.read(r, 65536)
                if not b:
                    done = True
                    break
                data += b
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(pid, 0)
        os.close(r)
        if not done:
            return "does not terminate (%d s)" % (2 * self.scopes[si].timeout)
        if not data:
            return "crashes (status %d)" % st
        return json.loads(data)


def in_child(fn, timeout=100):
    """fn() in a forked child (global state of the process stays untouched).  Returns ("ok", result) or ("exc", text)."""
    import pickle, select
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                out = ("ok", fn())
            except SystemExit as e:
                out = ("exc", "SystemExit(%r)" % (e.code,))
            except BaseException:
                out = ("exc", traceback.format_exc()[-2500:])
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = b"", time.monotonic() + timeout
    done = False
    while time.monotonic() < end:
        if select.select([r], [], [], 1.0)[0]:
            b = os.read(r, 1 << 16)
            if not b:
                done = True
                break
            data += b
    try:
        os.killpg(pid, signal.SIGKILL)      # leftovers of the child
    except OSError:
        pass
    _, st = os.waitpid(pid, 0)
    os.close(r)
    if not done:
        return "exc", "does not terminate (%d s)" % timeout
    return pickle.loads(data) if data else ("exc", "process ended with status %d" % st)


def known_findings(prop):
    """Lines 'open: property=<id> match=<substring of the message> :: <what fails>' of known_findings.txt."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                m, _, what = line.partition(" match=")[2].partition(" :: ")
                out.append((m, what))
    return out


def main(prop, build, technique=""):
    """build(tier) -> (scopes, meta dict)."""
    tier = "thorough" if "thorough" in sys.argv[1:] or (os.environ.get("VERIF_TIER") == "thorough" and "quick" not in sys.argv[1:]) else "quick"
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier = replay["tier"]
    t0 = time.time()
    try:
        try:
            boot()
            scopes, meta = build(tier)
        except Violation as e:
            return _report(prop, tier, None, [dict(scope=-1, index=-1, case=None, message=str(e))], {}, t0, [])
        except ImportError:
            return _report(prop, tier, None, [dict(scope=-1, index=-1, case=None, message=traceback.format_exc())], {}, t0, [])
        if "--list" in sys.argv:
            for s in scopes:
                print(s.name, s.n, s.note)
            return 0
        if "--scope" in sys.argv:
            pat = sys.argv[sys.argv.index("--scope") + 1]
            scopes = [s for s in scopes if pat in s.name]
        budget = float(os.environ.get("VMC_BUDGET", meta.get("budget", 600 if tier == "quick" else 3000)))
        ex = Explorer(prop, tier, scopes, budget)
        if replay:
            si = [s.name for s in scopes].index(replay["scope"])
            bad = ex.isolated(si, replay["index"])
            print("replay %s[%d]: %s" % (replay["scope"], replay["index"], bad or "passes"))
            return 1 if bad else 0
        results, viols, wall = ex.explore()
        kept = [v for v in viols if not any(m and m in v["message"] for m, _ in ex.known)]
        for m, w in ex.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
        return _report(prop, tier, ex, kept, meta, t0, results)
    except NoAnswer as e:
        print("NO-ANSWER property=%s %s" % (prop, e))
        return 2
    finally:
        _cleanup()


def _report(prop, tier, ex, viols, meta, t0, results):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scopes = ex.scopes if ex else []
    per, states, exhaustive, distinct = [], 0, True, 0
    for si, s in enumerate(scopes):
        c = sum(r["counts"][si] for r in results)
        o = len(set().union(*[set(r["obs"].get(str(si), [])) for r in results])) if results else 0
        states += c * s.states
        distinct += o
        exhaustive &= c == s.n
        per.append(dict(scope=s.name, space=s.n * s.states, explored=c * s.states, distinct_outcomes=o, note=s.note))
    trans = sum(r["trans"] for r in results)
    samples = [x for r in results for x in r["samples"]][:6]
    seen = set()
    ev = dict(property=prop, tier=tier, seed=SEED, level=meta.get("level", "model_checking"),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=states,
                            exhaustive=bool(exhaustive and not viols and results), scopes=per, samples=samples,
                            distinct_outcomes=distinct,
                            how=meta.get("how", ""), evaluations=trans),
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in per:
        print("%s %-28s explored %d of %d, %d distinct outcomes" % (prop, p["scope"], p["explored"], p["space"], p["distinct_outcomes"]))
    print("%s states=%d transitions=%d wall=%.1fs exhaustive=%s" % (prop, states, trans, time.time() - t0, ev["coverage"]["exhaustive"]))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = min(viols, key=lambda v: (v["scope"], v["index"]))
        path = os.path.join(VERIF, "replays", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=SEED, scope=scopes[v["scope"]].name if v["scope"] >= 0 else None,
                           index=v["index"], case=v["case"], message=v["message"],
                           replay_cmd="%s -B mc/run.py %s --replay %s" % (PY, prop, path)), f, indent=1)
        print((v["message"] or "")[:2500])
        print("case:", json.dumps(v["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
