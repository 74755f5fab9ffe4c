"""Explores all paths of a set of harnesses with a pool of worker processes."""
import gc
import multiprocessing as mp
import os
import queue
import random
import signal
import sys
import time
import traceback

from . import core, ctx as ctxmod, loader

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VH = os.path.join(VERIF, "vh")


class Harness:
    """fn: "module.function" inside /verif/vh."""

    def __init__(self, fn, name=None, params=None, path_timeout=60,
                 native_every=1, reach=(), max_paths=None, bounds=""):
        self.fn = fn
        self.params = params or {}
        self.name = name or (fn.split(".")[-1] + "".join(
            ",%s=%s" % kv for kv in sorted(self.params.items())))
        self.path_timeout = path_timeout
        self.native_every = native_every
        self.reach = tuple(reach)
        self.max_paths = max_paths
        self.bounds = bounds


class VhModules(loader.Modules):
    """The harness universe (transformed like the code under test)."""

    def path(self, name):
        if name.startswith("vh."):
            p = os.path.join(VERIF, name.replace(".", "/") + ".py")
            return p if os.path.exists(p) else None
        if name == "vh":
            return os.path.join(VH, "__init__.py")
        return None

    def ours(self, name):
        return name.split(".")[0] == "vh"


_VH = {}


def vh(symbolic):
    m = _VH.get(symbolic)
    if m is None:
        m = VhModules(symbolic, {})
        _VH[symbolic] = m
    return m


def harness_fn(h, symbolic):
    mod, _, fn = h.fn.rpartition(".")
    return getattr(vh(symbolic).load("vh." + mod), fn)


def _alarm(signum, frame):
    raise core.PathTimeout()


def _limit(seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def _unlimit():
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_native(h, assignment, timeout=None):
    """Run the harness on the plain code. Returns (status, label, detail,
    observed)."""
    assert core.CUR is None
    c = ctxmod.ConcCtx(assignment, h.params)
    fn = harness_fn(h, False)
    _limit(timeout or h.path_timeout)
    try:
        try:
            fn(c, **h.params)
            return ("ok", None, None, c.observed)
        finally:
            _unlimit()
    except core.Violation as v:
        return ("violation", v.label, str(v.detail), c.observed)
    except core.Infeasible:
        return ("infeasible", None, None, c.observed)
    except core.PathTimeout:
        return ("violation", "does not terminate", "", c.observed)
    except Exception as e:
        return ("violation", "unexpected exception " + type(e).__name__,
                "".join(traceback.format_exception(e)[-6:]), c.observed)


class Result:
    def __init__(self):
        self.stats = core.Stats()
        self.candidates = []       # dicts
        self.errors = []
        self.dropped = []
        self.samples = []
        self.per_harness = {}
        self.exhausted = True

    def merge(self, o):
        self.stats.merge(o.stats)
        self.candidates += o.candidates
        self.errors += o.errors
        self.dropped += o.dropped
        self.samples += o.samples
        self.exhausted = self.exhausted and o.exhausted
        for k, v in o.per_harness.items():
            a = self.per_harness.setdefault(k, {})
            for f, x in v.items():
                if isinstance(x, dict):
                    d = a.setdefault(f, {})
                    for kk, vv in x.items():
                        d[kk] = d.get(kk, 0) + vv
                else:
                    a[f] = a.get(f, 0) + x


class Runner:
    def __init__(self, harnesses, opts):
        self.hs = harnesses
        self.opts = opts
        self.res = Result()
        self.solver = None
        self.solver_for = None
        self.kstop = 0
        self.known = opts.get("known", ())
        self.seen_labels = {}

    def run_path(self, hi, prefix, model):
        h = self.hs[hi]
        if self.solver_for != hi:
            self.solver = core.SolverStack(self.opts.get("solver_ms", 10000))
            self.solver_for = hi
        st = self.res.stats
        p = core.Path(self.solver, st, prefix, model)
        c = ctxmod.SymCtx(p, h.params)
        st.paths += 1
        ph = self.res.per_harness.setdefault(h.name, {"paths": 0, "seconds": 0,
                                                      "reached": {}})
        ph["paths"] += 1
        t0 = time.time()
        before = dict(st.reached)
        outcome = "ok"
        label = detail = None
        fn = harness_fn(h, True)
        core.CUR = p
        _limit(h.path_timeout)
        try:
            try:
                fn(c, **h.params)
            finally:
                _unlimit()
                p_pending = p.pending
        except core.Infeasible:
            outcome = "infeasible"
            st.infeasible += 1
        except core.Violation as v:
            outcome, label, detail = "violation", v.label, str(v.detail)
        except core.PathTimeout:
            outcome, label = "violation", "does not terminate"
            detail = traceback.format_exc()[-1500:]
        except core.Incomplete:
            outcome = "incomplete"
        except core.Inconclusive as e:
            outcome = "error"
            label = "inconclusive: %s" % e
            detail = traceback.format_exc()
        except RecursionError as e:
            outcome, label = "violation", "unexpected exception RecursionError"
            detail = ""
        except Exception as e:
            outcome = "violation"
            label = "unexpected exception " + type(e).__name__
            detail = "".join(traceback.format_exception(e)[-6:])
        finally:
            core.CUR = None
        for k, v in st.reached.items():
            d = v - before.get(k, 0)
            if d:
                ph["reached"][k] = ph["reached"].get(k, 0) + d
        st.max_depth = max(st.max_depth, len(p.trail))
        if outcome == "error":
            self.drop(h, p, label, detail)
        elif outcome == "ok":
            st.completed += 1
            if h.native_every and st.completed % h.native_every == 0:
                self.concord(h, p)
        elif outcome == "violation":
            try:
                a = p.assignment()
            except core.Infeasible:
                a = None
            except core.Inconclusive as e:
                self.drop(h, p, str(e), "")
                a = None
            if a is not None:
                self.candidate(h, label, detail, a)
        ph["seconds"] += time.time() - t0
        return p.pending

    def drop(self, h, p, why, detail):
        """The engine cannot follow this path.  Run the real code on a few
        inputs that lead here; the rest of the path is unexplored."""
        self.res.stats.dropped += 1
        if len(self.res.dropped) < 5:
            self.res.dropped.append("%s: %s\n%s" % (h.name, why, detail))
        tried = []
        for i in range(6 if self.res.stats.dropped < 100 else 2):
            try:
                a = p.assignment() if i == 0 else p.coincidence(i)
            except (core.Infeasible, core.Inconclusive):
                return
            if a in tried:
                continue
            tried.append(a)
            status, label, ndetail, _ = run_native(h, a)
            if status == "violation":
                self.candidate(h, label, ndetail, a)
                return

    def is_known(self, h, label):
        for k in self.known:
            if k.matches(h.name, label):
                return k
        return None

    def candidate(self, h, label, detail, a):
        n = self.seen_labels.get((h.name, label), 0)
        self.seen_labels[(h.name, label)] = n + 1
        if n >= 3:
            return
        status, nlabel, ndetail, _ = run_native(h, a)
        rec = {"harness": h.fn, "name": h.name, "params": h.params,
               "label": label, "detail": detail, "assignment": a,
               "native": status, "native_label": nlabel,
               "native_detail": ndetail}
        if status == "violation":
            self.res.candidates.append(rec)
            if self.is_known(h, nlabel) is None:
                self.kstop = 1
        elif label == "does not terminate":
            self.res.stats.dropped += 1
            self.res.dropped.append("%s: path time limit %s\n%s" %
                                    (h.name, a, detail))
        else:
            # the engine misjudged this path: it counts as not followed
            self.res.stats.dropped += 1
            self.res.dropped.append(
                "%s: counterexample for %r does not reproduce on the real "
                "code (native run: %s)\n%s\n%s" % (h.name, label, status,
                                                   detail, a))

    def concord(self, h, p):
        st = self.res.stats
        try:
            a = p.assignment()
        except core.Infeasible:
            return
        m = p.model
        want = [(t, ctxmod.normal(v, m)) for t, v in p.observed]
        status, label, detail, got = run_native(h, a)
        st.native_runs += 1
        if status == "violation":
            self.candidate(h, "native: " + label, detail, a)
            return
        if status != "ok":
            st.dropped += 1
            self.res.dropped.append("%s: native run %s on a completed path "
                                    "%s" % (h.name, status, a))
            return
        if len(want) == len(got) and all(
                x[0] == y[0] and ctxmod.same(x[1], y[1])
                for x, y in zip(want, got)):
            st.native_match += 1
            if len(self.res.samples) < 2:
                self.res.samples.append({"harness": h.name, "inputs": a,
                                         "observed": got[:6]})
        else:
            diff = [(x, y) for x, y in zip(want, got)
                    if x[0] != y[0] or not ctxmod.same(x[1], y[1])][:3]
            self.res.stats.dropped += 1
            self.res.dropped.append(
                "%s: symbolic and real execution disagree on %s: %s "
                "(lengths %d/%d)" % (h.name, a, diff, len(want), len(got)))


def worker(wid, harnesses, opts, tasks, shared, results):
    os.environ["PSX_WORKER"] = str(wid)
    sys.setrecursionlimit(20000)
    gc.freeze()
    gc.set_threshold(50000, 20, 50)
    r = Runner(harnesses, opts)
    outstanding, waiting, stop = shared
    deadline = opts["deadline"]
    try:
        while True:
            with waiting.get_lock():
                waiting.value += 1
            try:
                while True:
                    try:
                        task = tasks.get(timeout=0.2)
                        break
                    except queue.Empty:
                        if stop.value or outstanding.value == 0:
                            task = None
                            break
            finally:
                with waiting.get_lock():
                    waiting.value -= 1
            if task is None:
                break
            hi, prefix = task
            local = [(prefix, None)]
            while local:
                if stop.value:
                    r.res.exhausted = False
                    break
                if time.time() > deadline:
                    r.res.exhausted = False
                    stop.value = 2
                    break
                pre, model = local.pop()
                new = r.run_path(hi, pre, model)
                local.extend(new)
                if r.kstop or len(r.res.errors) > 5:
                    stop.value = max(stop.value, 1)
                if len(local) > 1 and waiting.value > 0 and \
                   tasks.qsize() < waiting.value:
                    give = local[:max(1, len(local) // 4)][:8]
                    del local[:len(give)]
                    with outstanding.get_lock():
                        outstanding.value += len(give)
                    for g in give:
                        tasks.put((hi, g[0]))
            with outstanding.get_lock():
                outstanding.value -= 1
    except BaseException:
        r.res.errors.append("worker: " + traceback.format_exc())
        stop.value = 1
    r.res.stats.functions |= loader.FUNCS
    results.put(r.res)


def explore(harnesses, budget_s, jobs=None, seed=1, known=()):
    jobs = jobs or min(8, os.cpu_count() or 1)
    opts = {"deadline": time.time() + budget_s, "known": known}
    if jobs == 1:
        tasks = queue.Queue()
        mpc = mp.get_context("fork")
        shared = (mpc.Value("i", len(harnesses)), mpc.Value("i", 0),
                  mpc.Value("i", 0))
        for i in range(len(harnesses)):
            tasks.put((i, []))
        out = queue.Queue()
        worker(0, harnesses, opts, tasks, shared, out)
        return out.get()
    # load everything once before forking
    for h in harnesses:
        harness_fn(h, True)
        harness_fn(h, False)
    mpc = mp.get_context("fork")
    tasks = mpc.Queue()
    results = mpc.Queue()
    shared = (mpc.Value("i", len(harnesses)), mpc.Value("i", 0),
              mpc.Value("i", 0))
    for i in range(len(harnesses)):
        tasks.put((i, []))
    procs = [mpc.Process(target=worker, daemon=True,
                         args=(w, harnesses, opts, tasks, shared, results))
             for w in range(jobs)]
    for p in procs:
        p.start()
    res = Result()
    got = 0
    while got < jobs:
        try:
            res.merge(results.get(timeout=1))
            got += 1
        except queue.Empty:
            dead = [p for p in procs if not p.is_alive()]
            if len(dead) + 0 == jobs and results.empty():
                res.errors.append("%d worker(s) died" % (jobs - got))
                res.exhausted = False
                break
            if time.time() > opts["deadline"] + 120:
                res.errors.append("workers did not finish")
                res.exhausted = False
                for p in procs:
                    p.kill()
                break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    if shared[2].value == 2:
        res.exhausted = False
    return res
