"""Simulated joblib.Parallel: workers are separate simulated processes (nodes)."""
import io
import pickle

import cloudpickle
import numpy as np

from . import sched as _sched
from .core import Violation

world = None            # set by World
RealParallel = None


class WorkerKilled(BaseException):
    pass


def _terminated():
    from joblib.externals.loky.process_executor import TerminatedWorkerError
    return TerminatedWorkerError("A worker process managed by the executor was unexpectedly terminated.")


def _readonly(o, depth=0):
    if isinstance(o, np.ndarray):
        if not o.dtype.hasobject:
            o.flags.writeable = False
    elif isinstance(o, (list, tuple)) and depth < 3:
        for x in o:
            _readonly(x, depth + 1)
    elif isinstance(o, dict) and depth < 3:
        for x in o.values():
            _readonly(x, depth + 1)


class Pool:
    """The reusable executor of one simulated process."""

    def __init__(self, w, parent):
        self.w = w
        self.parent = parent
        self.workers = []

    def get(self, n):
        """n workers; a worker process starts when its first piece arrives."""
        return Workers(self, n)

    def worker(self, i):
        while len(self.workers) <= i:
            self.workers.append(None)
        if self.workers[i] is None:
            self.workers[i] = self.w.spawn("%s.w%d" % (self.parent.name, self.w.n_workers), is_worker=True)
            self.w.n_workers += 1
        return self.workers[i]

    def drop(self):
        self.workers = []


class Workers:
    def __init__(self, pool, n):
        self.pool, self.n = pool, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError(i)
        return self.pool.worker(i)


class SimParallel:
    """Stands in for joblib.Parallel while a simulation is running."""

    def __new__(cls, *a, **k):
        if world is None and cls is SimParallel:
            return RealParallel(*a, **k)
        return object.__new__(cls)

    def __init__(self, n_jobs=None, backend=None, return_as="list", verbose=0, timeout=None,
                 pre_dispatch="2 * n_jobs", batch_size="auto", temp_folder=None, max_nbytes="1M",
                 mmap_mode="r", prefer=None, require=None, **backend_kwargs):
        if backend is not None and not isinstance(backend, str):
            backend = "loky"
        self.n_jobs = 1 if n_jobs is None else int(n_jobs)
        if self.n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if self.n_jobs < 0:
            self.n_jobs = max(world.cpus + 1 + self.n_jobs, 1)
        self.threads = backend in ("threading",) or (backend is None and (prefer == "threads" or require == "sharedmem"))
        if backend == "sequential":
            self.n_jobs = 1
        self.return_as = return_as
        self.max_nbytes = max_nbytes
        self.verbose = verbose

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def _effective_n_jobs(self):
        return self.n_jobs

    def print_progress(self):
        pass

    def __call__(self, iterable):
        out = self._run(iterable)
        if self.return_as == "list":
            return [r for _, r in sorted(out, key=lambda x: x[0])]
        if self.return_as == "generator":
            return iter([r for _, r in sorted(out, key=lambda x: x[0])])
        return iter([r for _, r in out])

    # ------------------------------------------------------------------
    def _run(self, iterable):
        w = world
        ctx = w.ctx
        n = self.n_jobs
        ctx.probe("parallel_regions")
        if n == 1 or w.current.is_worker:
            out = []
            for k, item in enumerate(iterable):
                f, a, kw = item
                out.append((k, f(*a, **kw)))
            return out
        ctx.log("parallel", n, "threads" if self.threads else "processes")
        w.par_regions += 1
        brk = w.par_break
        if brk is not None and w.par_regions == brk[0]:
            w.par_break = None
            ctx.fault("caller_" + brk[2].__name__)
            if brk[1]:
                self._atomic(iterable, n)
            raise brk[2]("injected while waiting for workers")
        inside = _sched.active is not None
        inter = w.par_interleave and not inside
        if inter:
            return self._interleaved(iterable, n)
        return self._atomic(iterable, n)

    def _dump(self, item):
        if self.threads:
            return item
        return cloudpickle.dumps(item)

    def _exec(self, node, blob, k):
        """Runs one piece in worker `node`; returns the pickled result or raises."""
        w = world
        ctx = w.ctx
        if self.threads:
            f, a, kw = blob
            return f(*a, **kw)
        home = w.current
        w.activate(node)
        try:
            f, a, kw = pickle.loads(blob)
            if w.par_readonly and self.max_nbytes is not None:
                _readonly(list(a) + list(kw.values()))
            fault = w.par_faults.get(w.par_seq)
            w.par_seq += 1
            if fault is not None:
                return self._faulty(f, a, kw, fault)
            res = f(*a, **kw)
            return cloudpickle.dumps(res)
        finally:
            if _sched.active is None or True:
                node_now = w.current
                if node_now is not home:
                    w.activate(home)

    def _faulty(self, f, a, kw, fault):
        kind, exc, at = fault
        w = world
        if kind == "kill" and at == 0:
            w.ctx.fault("worker_killed")
            raise WorkerKilled()
        if at == 0:
            w.ctx.fault("worker_" + exc.__name__)
            raise exc("injected in worker")
        w.inject = (exc if kind != "kill" else WorkerKilled, at)
        before = w.injected
        try:
            res = f(*a, **kw)
            out = cloudpickle.dumps(res)
        except BaseException as e:
            if w.injected > before:
                w.ctx.fault("worker_killed" if kind == "kill" else "worker_" + exc.__name__)
                if kind == "kill":
                    raise WorkerKilled()
            raise
        finally:
            w.inject = None
        if w.injected > before:      # the injected failure was swallowed inside the piece
            w.ctx.fault("worker_killed" if kind == "kill" else "worker_" + exc.__name__)
            if kind == "kill":
                raise WorkerKilled()
        return out

    def _load(self, r):
        return r if self.threads else pickle.loads(r)

    def _workers(self, n):
        w = world
        if self.threads:
            return [w.current] * n
        pool = w.pool(w.current)
        if pool.workers and w.ctx.ch.flag(0.2):
            w.ctx.fault("workers_respawned")
            pool.drop()
        return pool.get(n)

    def _fail(self, e):
        if isinstance(e, WorkerKilled):
            world.pool(world.current).drop()
            raise _terminated()
        if isinstance(e, Violation):
            raise e
        raise e

    def _atomic(self, iterable, n):
        w = world
        ctx = w.ctx
        it = iter(iterable)
        workers = None
        pending, out, k, more = [], [], 0, True
        while True:
            while more and len(pending) < 2 * n:
                try:
                    item = next(it)
                except StopIteration:
                    more = False
                    break
                pending.append((k, self._dump(item)))
                k += 1
            if not pending:
                break
            if workers is None:
                workers = self._workers(n)
            j = ctx.ch.draw(min(len(pending), n))
            idx, blob = pending.pop(j)
            wi = ctx.ch.small(len(workers), 0.6)
            ctx.schedule("piece", idx, "w", wi)
            ctx.log("piece", idx, "on", wi)
            ctx.stats["pieces"] += 1
            if j or wi:
                ctx.nontrivial = True
            try:
                r = self._exec(workers[wi], blob, idx)
            except BaseException as e:
                if ctx.ch.flag(0.5):        # pieces already running elsewhere still finish
                    for idx2, blob2 in pending[:n - 1]:
                        try:
                            self._exec(workers[(wi + 1) % len(workers)], blob2, idx2)
                        except BaseException:
                            pass
                self._fail(e)
            if w.piece_done is not None:
                w.piece_done(idx)
            out.append((idx, r))
        return [(i, self._load(r)) for i, r in out]

    def _interleaved(self, iterable, n):
        w = world
        ctx = w.ctx
        items = [(k, self._dump(x)) for k, x in enumerate(iterable)]
        if not items:
            return []
        workers = self._workers(n)
        queue = list(items)
        out = []
        failed = []
        s = _sched.Sched(ctx, w, w.preemption_plan())

        def body(node):
            def go():
                while queue and not failed:
                    k, blob = queue.pop(0)
                    ctx.schedule("piece", k, node.name)
                    ctx.log("piece", k, "on", node.name)
                    ctx.stats["pieces"] += 1
                    try:
                        r = self._exec(node, blob, k)
                    except (_sched.SimAbort, Violation):
                        raise
                    except BaseException as e:
                        failed.append((k, e))
                        return
                    out.append((k, r))
            return go
        m = min(n, len(items))
        home = w.current
        for i in range(m):
            s.spawn("w%d" % i, body(workers[i]), home)
        s.run()
        if s.switches:
            ctx.nontrivial = True
        if failed:
            self._fail(failed[0][1])
        return [(i, self._load(r)) for i, r in out]
