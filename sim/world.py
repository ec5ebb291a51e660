"""The simulated machine: processes (nodes), their modules, clock, workers, tracing, faults."""
import fileinput
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading
import types

from . import clock as _clock

REPO = os.environ.get("T2C_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "tools21cm")
TOOL = 3

_codes = {}             # path -> module code object
_funcs = {}             # path -> [function code objects]
_so = None              # built extension, or None: treated as not installed
_world = None
_tracing = False
_installed = False
lines_hit = set()


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        p = self.get_filename(fullname)
        c = _codes.get(p)
        if c is None:
            with open(p, "rb") as f:
                c = compile(f.read(), p, "exec")
            _codes[p] = c
            fs = []

            def walk(co):
                for k in co.co_consts:
                    if isinstance(k, types.CodeType):
                        if k.co_flags & 1:      # CO_OPTIMIZED: a function, not a class body
                            fs.append(k)
                        walk(k)
            walk(c)
            _funcs[p] = fs
            if _tracing:
                for k in fs:
                    sys.monitoring.set_local_events(TOOL, k, _events())
        return c


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "tools21cm" and not name.startswith("tools21cm."):
            return None
        parts = name.split(".")[1:]
        base = os.path.join(PKG, *parts)
        if name == "tools21cm.ViteBetti_cython":
            if _so is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            return importlib.util.spec_from_file_location(name, _so)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p))
        return None


def _on_line(code, line):
    if _late:
        w = _world
        if w is None or w.strike is None or w.strike[0] != "late":      # the call ended first
            for c in list(_late):
                sys.monitoring.set_local_events(TOOL, c, _events())
            _late.clear()
        elif code in _late:
            sys.monitoring.set_local_events(TOOL, code, _events())
            _late.clear()
            w._strike(code, w.strike[2]("injected"))
        return
    w = _world
    if w is not None and w.line_hook is not None:
        w.line_hook(code, line)


def _events():
    e = sys.monitoring.events
    return {False: 0, True: e.LINE, "points": e.PY_START | e.CALL | e.JUMP}[_tracing]


# CPython handles signals on entering a function, after a call of a C function and on jumping back:
# a KeyboardInterrupt is only ever raised there, never between two plain assignments.
def _on_start(code, off):
    w = _world
    if w is not None and w.current is not None:
        w._point("interrupt", code, off)


# (An exception raised by a JUMP callback passes by the handlers and finally clauses of the function, which no real
# one does; so the interrupt of a jump is raised by the line event that follows at its target.)
_late = set()


def _on_jump(code, off, dest):
    w = _world
    if dest < off and w is not None and w.current is not None and w._reached("interrupt", code, off):
        w.strike = ("late",) + w.strike[1:]
        _late.add(code)
        sys.monitoring.set_local_events(TOOL, code, _events() | sys.monitoring.events.LINE)


def _on_creturn(code, off, fn, arg):
    w = _world
    # (between the creation of a block and its assignment no program can be safe)
    if w is not None and w.current is not None and getattr(fn, "__name__", "") != "SharedMemory":
        w._point("interrupt", code, off)


# Array allocations fail inside calls of numpy and scipy (not in those that put numeric state back).
_KEEP = {"seterr", "geterr", "errstate", "seterrcall", "geterrcall", "set_state", "get_state", "seed", "setflags", "__exit__", "__enter__"}


def _on_call(code, off, fn, arg):
    w = _world
    if w is not None and w.current is not None:
        m = getattr(fn, "__module__", None) or getattr(fn, "__objclass__", type(getattr(fn, "__self__", None))).__module__
        if isinstance(m, str) and m.split(".")[0] in ("numpy", "scipy") and getattr(fn, "__name__", "") not in _KEEP:
            w._point("memory", code, off)


# Opening a table that ships with the package fails.


def _on_audit(event, args):
    if event != "open":
        return
    w = _world
    if w is None or w.current is None or _tracing != "points" or not isinstance(args[0], str):
        return
    p = args[0]
    if not os.path.abspath(p).startswith(PKG) or p.endswith((".py", ".pyc", ".so")):
        return
    w._point("io", p, 0)


def trace(on):
    """on: False, True (every line: thread switches) or "points" (where an interrupt or failed allocation can strike)."""
    global _tracing
    if on == _tracing:
        return
    _tracing = on
    ev = _events()
    for fs in _funcs.values():
        for k in fs:
            sys.monitoring.set_local_events(TOOL, k, ev)


def _entropy(seed):
    """The kernel's random bytes become a function of seed; 0: the real ones."""
    import ctypes
    try:
        f = ctypes.CDLL(None).simdisk_entropy
    except AttributeError:
        return
    f.argtypes = [ctypes.c_ulonglong]
    f(seed)


def install(so=None):
    """Once per process, before any simulation: puts the seams in place."""
    global _installed, _so
    if _installed:
        return
    _installed = True
    _so = so
    import warnings
    warnings.simplefilter("ignore")
    _clock.install()
    import numpy, scipy, scipy.ndimage, scipy.signal, scipy.interpolate, scipy.integrate, scipy.optimize, scipy.stats  # noqa
    import sklearn.neighbors, sklearn.cluster, skimage.measure, skimage.morphology, skimage.filters, skimage.segmentation  # noqa
    import joblib, joblib.parallel, cloudpickle, tqdm, pandas, yaml, numba, astropy.units, astropy.cosmology, astropy.coordinates, astropy.io.fits  # noqa
    import matplotlib.pyplot, multiprocessing, multiprocessing.shared_memory, fileinput, json, pickle  # noqa
    tqdm.tqdm.monitor_interval = 0
    from . import par, sched
    par.RealParallel = joblib.parallel.Parallel
    joblib.Parallel = joblib.parallel.Parallel = par.SimParallel
    real_cpu = os.cpu_count

    def cpu_count(*a, **k):
        return _world.cpus if _world is not None else real_cpu()
    os.cpu_count = cpu_count
    multiprocessing.cpu_count = cpu_count
    joblib.cpu_count = cpu_count
    joblib.parallel.cpu_count = cpu_count
    real_pid = os.getpid
    os.getpid = lambda: _world.current.pid if _world is not None and _world.current is not None else real_pid()
    real_ident = threading.get_ident

    def get_ident():
        """Thread identifiers as the library sees them: the first threads of two processes often have the same one."""
        me = real_ident()
        w = _world
        if w is None or w.current is None or not (sys._getframe(1).f_globals.get("__name__") or "").startswith("tools21cm"):
            return me
        ids = w.current.idents
        return 139000000000000 + 4096 * ids.setdefault(me, len(ids))
    threading.get_ident = get_ident
    os.sched_getaffinity = lambda pid: set(range(cpu_count()))
    joblib.effective_n_jobs = lambda n=-1: (1 if n is None else n if n > 0 else max(cpu_count() + 1 + n, 1))
    _install_shm()
    _install_numba()
    _install_listing()
    _clock.install_datetime()
    threading.Lock = sched.SimLock
    threading.RLock = sched.SimRLock
    import gc
    global real_collect
    real_collect = gc.collect       # when garbage is collected is the harness's business, see core.execute
    gc.collect = lambda *a: 0 if _world is not None and _world.current is not None else real_collect(*a)
    sys.meta_path.insert(0, _Finder)
    sys.addaudithook(_on_audit)
    sys.monitoring.use_tool_id(TOOL, "t2csim")
    ev = sys.monitoring.events
    for e, f in ((ev.LINE, _on_line), (ev.PY_START, _on_start), (ev.JUMP, _on_jump), (ev.C_RETURN, _on_creturn),
                 (ev.CALL, _on_call)):
        sys.monitoring.register_callback(TOOL, e, f)


# ---------------------------------------------------------------- directory listings
def _shuffled(names, key):
    w = _world
    w.listings += 1
    w.ctx.stats["fault:listing_order"] += 1
    rng = random.Random("%d-%d" % (w.listing_seed, w.listings))
    names = sorted(names, key=key)
    rng.shuffle(names)
    return names


def _listing_on(path):
    w = _world
    if w is None or not w.listing_seed or w.disk is None or w.current is None:
        return False
    try:
        p = os.fsdecode(os.fspath(path)) if not isinstance(path, int) else ""
    except TypeError:
        return False
    return os.path.abspath(p).startswith(w.disk.root)


def _install_listing():
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(path="."):
        r = real_listdir(path)
        return _shuffled(r, str) if _listing_on(path) else r

    class Scan:
        def __init__(self, it):
            self.it = iter(_shuffled(list(it), lambda e: e.name))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.it = iter(())

    def scandir(path="."):
        r = real_scandir(path)
        return Scan(r) if _listing_on(path) else r
    os.listdir, os.scandir = listdir, scandir


# ---------------------------------------------------------------- numba
def _install_numba():
    """Compiles each function once, however many simulated processes import it."""
    import numba
    real = numba.jit
    made = {}

    def jit(*a, **k):
        if len(a) == 1 and isinstance(a[0], types.FunctionType) and a[0].__closure__ is None:
            key = (a[0].__code__, repr(sorted(k.items())))
            if key not in made:
                made[key] = real(*a, **k)
            return made[key]
        return real(*a, **k)
    numba.jit = jit


# ---------------------------------------------------------------- shared memory
shm_live = {}


def _install_shm():
    from multiprocessing import shared_memory, resource_tracker
    real = shared_memory._posixshmem

    class Proxy:
        @staticmethod
        def shm_open(name, flags, mode=0o600):
            w = _world
            if w is not None:
                w.shm_ops += 1
                if w.shm_fail is not None and w.shm_ops == w.shm_fail[0]:
                    w.ctx.fault("shm_open_" + w.shm_fail[2])
                    raise OSError(w.shm_fail[1], os.strerror(w.shm_fail[1]))
            fd = real.shm_open(name, flags, mode=mode)
            if flags & os.O_CREAT:
                shm_live[name] = True
            return fd

        @staticmethod
        def shm_unlink(name):
            shm_live.pop(name, None)
            return real.shm_unlink(name)
    shared_memory._posixshmem = Proxy
    resource_tracker.register = lambda *a, **k: None
    resource_tracker.unregister = lambda *a, **k: None
    if hasattr(shared_memory, "resource_tracker"):
        shared_memory.resource_tracker.register = resource_tracker.register
        shared_memory.resource_tracker.unregister = resource_tracker.unregister


def shm_cleanup():
    from multiprocessing import shared_memory
    for n in list(shm_live):
        try:
            shared_memory._posixshmem.shm_unlink(n)
        except OSError:
            pass
        shm_live.pop(n, None)


_hot = {}               # code -> does it touch state that outlives the call?


def hot_codes(node):
    """Functions of the package that write module-level names or use module-level containers: switching inside them is
    where sharing between callers would show. Only steers the search."""
    import dis
    import functools
    plain = (int, float, complex, str, bytes, bool, tuple, frozenset, type, type(None), types.FunctionType, types.ModuleType,
             types.BuiltinFunctionType)
    out = set()
    for name, mod in node.modules.items() if node.w.current is not node else [
            (k, m) for k, m in sys.modules.items() if k == "tools21cm" or k.startswith("tools21cm.")]:
        fs = _funcs.get(getattr(mod, "__file__", None))
        for co in fs or ():
            h = _hot.get(co)
            if h is None:
                h = False
                prev = None
                for i in dis.get_instructions(co):
                    if i.opname == "STORE_ATTR" and prev is not None and prev.opname == "LOAD_GLOBAL" and isinstance(
                            vars(mod).get(prev.argval), types.ModuleType):
                        h = True                # const.x = ...
                    prev = i
                    if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                        h = True
                    elif i.opname == "LOAD_GLOBAL":
                        v = vars(mod).get(i.argval)
                        if v is not None and not isinstance(v, plain) and not callable(v) or hasattr(v, "cache_info") or i.argval in ("setattr", "globals"):
                            h = True
                    elif i.opname in ("STORE_ATTR", "LOAD_ATTR") and (i.argval in ("seed", "seterr", "setflags") or i.argval.startswith("set_")):
                        h = True
                _hot[co] = h
            if h:
                out.add(co)
    return out


class _Sink:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError("no descriptor")


class Node:
    """One simulated process: its own copy of the package's modules and random state."""

    def __init__(self, w, name, is_worker=False, absent=()):
        import numpy as np
        self.w = w
        self.name = name
        self.is_worker = is_worker
        self.modules = {}
        self.alive = True
        w.n_nodes += 1
        self.pid = 4000 + 37 * w.n_nodes
        self.idents = {}
        self.np_state = np.random.RandomState(w.rng.randrange(2 ** 31)).get_state()
        self.py_state = random.Random(w.rng.randrange(2 ** 31)).getstate()
        home = w.current
        w.activate(self)
        saved, attrs = {}, []
        for m in absent:
            for k in [k for k in sys.modules if k == m or k.startswith(m + ".")]:
                saved[k] = sys.modules[k]
            up, _, leaf = m.rpartition(".")
            if up in sys.modules and leaf in vars(sys.modules[up]):
                attrs.append((sys.modules[up], leaf, vars(sys.modules[up])[leaf]))
                delattr(sys.modules[up], leaf)
            sys.modules[m] = None
        try:
            hook, w.line_hook = w.line_hook, None
            strike, w.strike, points, sites, w.sites = w.strike, None, dict(w.points), w.sites, None   # a process that dies starting up is another matter
            import tools21cm
            self.t2c = sys.modules["tools21cm"]
            w.line_hook = hook
            w.strike, w.points, w.sites = strike, points, sites
        finally:
            for m in absent:
                sys.modules.pop(m, None)
            sys.modules.update(saved)
            for o, k, v in attrs:
                setattr(o, k, v)
        if home is not None:
            w.activate(home)

    def __getattr__(self, n):
        if n.startswith("__") or "t2c" not in self.__dict__:
            raise AttributeError(n)
        return getattr(self.t2c, n)

    def __enter__(self):
        self._prev = self.w.current
        self.w.activate(self)
        return self

    def __exit__(self, *a):
        if self._prev is not None:
            self.w.activate(self._prev)


class World:
    def __init__(self, ctx, tracing=False):
        global _world
        import numpy as np
        from . import par
        self.np = np
        assert _world is None, "one world at a time"
        self.ctx = ctx
        ctx.world = self
        self.rng = random.Random("world-%s" % ctx.seed)
        self.current = None
        self.line_hook = None
        self.cpus = 8
        self.clock = _clock.Clock(ctx)
        self.par_interleave = False
        self.par_readonly = False
        self.par_faults = {}
        self.par_seq = 0
        self.par_regions = 0
        self.par_break = None       # (parallel region, before/after its pieces, exception): the caller is interrupted
        self.piece_done = None
        self.plan_fn = None
        self.inject = None
        self.injected = 0
        self.lines = 0
        self.line_limit = None
        self.hot = None
        self.hot_lines = 0
        self.points = {"interrupt": 0, "memory": 0, "io": 0}
        self.sites = None
        self.strike = None          # (kind, which point from now, exception)
        self.struck = None
        self.n_workers = 0
        self.n_nodes = 0
        self.pools = {}
        self.shm_ops = 0
        self.shm_fail = None
        self.listing_seed = 0
        self.listings = 0
        self.disk = None
        self._out = (sys.stdout, sys.stderr)
        sys.stdout = sys.stderr = _Sink()
        self.err0 = np.geterr()
        _world = self
        par.world = self
        _clock.current = self.clock
        trace(tracing)
        if tracing is True:
            self.line_hook = self._line
        self.tracing = tracing
        _entropy(self.rng.randrange(1, 2 ** 63))
        self._outer_np = np.random.get_state()
        self._outer_py = random.getstate()

    # ------------------------------------------------------------ processes
    def spawn(self, name="p", is_worker=False, absent=()):
        self.ctx.stats["nodes"] += 1
        return Node(self, name, is_worker, absent)

    def activate(self, node):
        cur = self.current
        if cur is node:
            return
        np = self.np
        if cur is not None:
            cur.np_state = np.random.get_state()
            cur.py_state = random.getstate()
            cur.err = np.geterr()
            cur.fi = fileinput._state
        for k in [k for k in sys.modules if k == "tools21cm" or k.startswith("tools21cm.")]:
            m = sys.modules.pop(k)
            if cur is not None:
                cur.modules[k] = m
        self.current = node
        if node is not None:
            sys.modules.update(node.modules)
            np.random.set_state(node.np_state)
            random.setstate(node.py_state)
            if hasattr(node, "err"):
                np.seterr(**node.err)
            fileinput._state = getattr(node, "fi", None)

    def pool(self, node):
        from . import par
        if node not in self.pools:
            self.pools[node] = par.Pool(self, node)
        return self.pools[node]

    def kill(self, node):
        node.alive = False
        self.pools.pop(node, None)

    def close(self):
        global _world
        from . import par
        try:
            if self.current is not None:
                self.activate(None)
            self.np.random.set_state(self._outer_np)
            random.setstate(self._outer_py)
            self.np.seterr(**self.err0)
        finally:
            _world = None
            par.world = None
            _clock.current = None
            _entropy(0)
            sys.stdout, sys.stderr = self._out
            self.line_hook = None
            self.ctx.stats["sim_seconds"] += self.clock.elapsed
            self.ctx.stats["steps"] += self.lines
            self.ctx.world = None
            self.ctx.stats["shm_leaked"] += len(shm_live)
            shm_cleanup()
            fileinput._state = None
            if self.disk is not None:
                self.disk.close()

    # ------------------------------------------------------------ tracing, preemption, interrupts
    def _line(self, code, line):
        from . import sched
        self.lines += 1
        s = sched.active
        if s is not None:
            if not s.mine():
                return
            s.cur.lines += 1
        if self.inject is not None:
            exc, at = self.inject
            at -= 1
            if at <= 0:
                self.inject = None
                self.injected += 1
                self.inject_where = "%s:%d" % (os.path.basename(code.co_filename), line)
                raise exc("injected")
            self.inject = (exc, at)
        if self.hot is not None and code in self.hot:
            self.hot_lines += 1
            hot = True
        else:
            hot = False
        if s is not None:
            s.step(hot)
        elif self.line_limit is not None and self.lines > self.line_limit:
            from .core import Violation
            self.line_limit = None
            raise Violation("no-progress", "call exceeded its step budget")

    def _reached(self, kind, code, off):
        self.points[kind] += 1
        if self.sites is not None:
            at = self.points[kind]
            x = self.sites[kind].setdefault((code, off), [at, at])
            x[1] = at
        s = self.strike
        return s is not None and s[0] == kind and self.points[kind] >= s[1]

    def _point(self, kind, code, off):
        if self._reached(kind, code, off):
            e = self.strike[2]
            self._strike(code, OSError(e, os.strerror(e), code) if kind == "io" else e("injected"))

    def _strike(self, code, exc):
        self.strike = None
        self.struck = "OSError on opening %s" % os.path.basename(code) if isinstance(code, str) else \
            "%s in %s:%s" % (type(exc).__name__, os.path.basename(code.co_filename), code.co_name)
        raise exc

    def watch_points(self):
        """Starts counting the points at which a call could be struck. -> function that ends it: {kind: count}, sites."""
        p0 = dict(self.points)
        self.sites = {k: {} for k in p0}

        def end():
            n = {k: self.points[k] - p0[k] for k in p0}
            n["sites"] = {k: [(a - p0[k], b - p0[k]) for a, b in self.sites[k].values()] for k in p0}
            self.sites = None
            return n
        return end

    def pick_point(self, n, kind):
        """One of the points: any place of the program equally likely, or any moment, or early, or late."""
        ch = self.ctx.ch
        how = ch.draw(10)
        if how < 5:
            sites = n["sites"][kind]
            return sites[ch.draw(len(sites))][1 if ch.flag(0.3) else 0]
        if how < 8:
            return 1 + ch.draw(n[kind])
        k = ch.draw(min(n[kind], 12))
        return 1 + k if how == 8 else n[kind] - k

    def arm_strike(self, kind, n, err=5):
        self.struck = None
        self.strike = (kind, self.points[kind] + n, {"interrupt": KeyboardInterrupt, "memory": MemoryError}.get(kind, err))

    def preemption_plan(self, est=None):
        if self.plan_fn is not None:
            return self.plan_fn()
        return []

    def draw_plan(self, est, kmax=8, kmin=0):
        """Preemption points within about `est` steps."""
        ch = self.ctx.ch
        k = kmin + ch.draw(kmax + 1 - kmin)
        est = max(2, int(est))
        plan = []
        for _ in range(k):
            plan.append(1 + ch.draw(est))
        if k and ch.flag(0.3):          # a burst of switches around one point
            p = plan[0]
            for d in range(1, 2 + ch.draw(20)):
                plan.append(p + d)
        return sorted(set(plan))

    def use_disk(self):
        from . import disk
        self.disk = disk.Disk(self.ctx)
        return self.disk
