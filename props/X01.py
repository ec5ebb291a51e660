"""A call leaves the process as it found it, however it ends."""
import builtins
import decimal
import errno
import functools
import gc
import inspect
import io
import json
import locale
import logging
import multiprocessing
import os
import pickle
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

from sim import sched, world
from sim.core import Violation
from sim.world import World, hot_codes, shm_live
from . import ops, ops_files, parops
from .T01 import brief, share, deep

DRAWS = {"lightcone_files"}       # breaks ties between cells with the session's random numbers
ERR = [errno.EIO, errno.EMFILE, errno.EACCES, errno.ENOENT]
DISK_ERR = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE]
SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGCHLD, signal.SIGFPE, signal.SIGPIPE]

_listdir = os.listdir
# functions of other packages that a call must not replace for everybody
PATCHABLE = [(builtins, ["open", "print", "sum", "round", "float", "int"]), (json, ["dump", "dumps", "load", "loads"]),
             (pickle, ["dump", "dumps", "load", "loads"]), (os, ["open", "replace", "rename", "remove", "makedirs", "getcwd"]),
             (warnings, ["warn", "showwarning", "formatwarning"]), (io, ["open"])]


def _np_attrs():
    import scipy.fft
    import scipy.ndimage
    return [(np, ["load", "save", "savez", "loadtxt", "fromfile", "sum", "mean", "log", "sqrt", "array", "asarray", "where", "product"]),
            (np.fft, ["fftn", "ifftn", "fft2", "ifft2", "fftshift"]), (np.random, ["normal", "rand", "seed", "random", "uniform", "randint"]),
            (scipy.ndimage, ["label", "gaussian_filter", "convolve"]), (scipy.fft, ["fftn", "ifftn"])]


def preload():
    """Packages that calls import when first needed."""
    import encodings.cp437, openpyxl, et_xmlfile, mimetypes, PIL.features, matplotlib.backends.backend_agg, matplotlib.pylab  # noqa
    import pandas.core.methods.to_dict, pandas.io.formats.csvs  # noqa


def _try(f):
    try:
        return f()
    except Exception as e:
        return "%s" % type(e).__name__


def descriptors():
    out = {}
    for fd in _listdir("/proc/self/fd"):
        try:
            out[int(fd)] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass                # the descriptor of the listing itself
    return out


def fingerprint(stream=True, figures=True):
    """What a process shares between everything that runs in it."""
    import csv
    import codecs
    import joblib
    import matplotlib
    import pandas
    import scipy.fft
    import yaml
    from astropy import cosmology, units
    um = os.umask(0o22)
    os.umask(um)
    fp = {
        "current directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": um,
        "signal handlers": [signal.getsignal(s) for s in SIGNALS],
        "timers": [signal.getitimer(s)[1] for s in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)] + [
            signal.getitimer(signal.ITIMER_REAL)[0] > 0],
        "resource limits": [resource.getrlimit(r) for r in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CPU)],
        "priority": os.nice(0),
        "warning filters": list(warnings.filters),
        "numeric error handling": (np.geterr(), np.geterrcall(), np.getbufsize()),
        "print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "module search path": list(sys.path) + [len(sys.meta_path), len(sys.path_hooks)],
        "standard streams": (sys.stdout, sys.stderr, sys.stdin),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.gettrace(), sys.getprofile()),
        "interpreter limits": (sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits()),
        "command line": list(sys.argv),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions),
        "temporary directory": tempfile.tempdir,
        "start method": multiprocessing.get_start_method(allow_none=True),
        "socket timeout": socket.getdefaulttimeout(),
        "plot settings": dict.copy(matplotlib.rcParams),
        "plot backend": matplotlib.rcParams._get("backend") if hasattr(matplotlib.rcParams, "_get") else None,
        "pandas options": [pandas.get_option(o) for o in ("mode.chained_assignment", "display.precision", "display.max_rows", "mode.copy_on_write")
                           if _try(lambda: pandas.get_option(o)) is not None],
        "yaml types": [len(c.yaml_representers) for c in (yaml.Dumper, yaml.SafeDumper)] + [
            len(c.yaml_constructors) for c in (yaml.Loader, yaml.SafeLoader, yaml.FullLoader)],
        "csv settings": (csv.field_size_limit(), sorted(csv.list_dialects())),
        "FFT workers": (scipy.fft.get_workers(),),
        "default cosmology": cosmology.default_cosmology.get().name,
        "enabled units": len(units.get_current_unit_registry().all_units),
        "shared-memory blocks": sorted(shm_live),
        "threads": sorted(t.name for t in threading.enumerate()),
        "library functions": [getattr(m, a, None) for m, al in PATCHABLE + _np_attrs() for a in al],
    }
    if figures:
        from matplotlib import pyplot
        fp["open figures"] = pyplot.get_fignums()
    if stream:
        s = np.random.get_state()
        fp["random streams"] = (s[0], s[1].tobytes(), s[2:], random.getstate())
    return fp


def differ(a, b):
    out = []
    for k in a:
        if k not in b:
            continue
        if a[k] != b[k]:
            out.append(k)
    return out


def short(a, b, k):
    if k == "random streams":
        return "the session's random stream moved"
    if isinstance(a[k], dict):
        d = [x for x in sorted(set(a[k]) | set(b[k])) if a[k].get(x) != b[k].get(x)]
        return "%s: %s" % (k, ", ".join("%s %r -> %r" % (x, a[k].get(x), b[k].get(x)) for x in d[:4]))
    return "%s: %.200r -> %.200r" % (k, a[k], b[k])


class Place:
    """The session's own directories on the simulated disk."""

    def __init__(self, d):
        self.d = d
        self.cwd, self.home, self.tmp = (os.path.join(d.root, x) for x in ("work", "home", "tmp"))
        for x in (self.cwd, self.home, self.tmp):
            os.makedirs(x)

    def __enter__(self):
        self.saved = os.getcwd(), dict(os.environ), tempfile.tempdir, list(warnings.filters), np.get_printoptions(), os.umask(0o22), dict.copy(
            __import__("matplotlib").rcParams), sys.getrecursionlimit(), list(sys.path), sys.stdout, sys.stderr
        os.umask(self.saved[5])
        os.chdir(self.cwd)
        os.environ.update(HOME=self.home, TMPDIR=self.tmp, XDG_CACHE_HOME=os.path.join(self.home, ".cache"))
        tempfile.tempdir = None
        tempfile.gettempdir()
        warnings.filters[:] = []        # a session of a user, not of the simulator, which silences everything
        warnings.simplefilter("default")
        return self

    def __exit__(self, *a):
        cwd, env, tempfile.tempdir, wf, po, um, rc, rl, sp, sys.stdout, sys.stderr = self.saved
        os.chdir(cwd)
        for k in [k for k in os.environ if k not in env]:
            del os.environ[k]
        os.environ.update(env)
        if list(warnings.filters) != wf:
            warnings.filters[:] = wf
            warnings._filters_mutated() if hasattr(warnings, "_filters_mutated") else None
        np.set_printoptions(**{k: v for k, v in po.items() if k != "formatter" and k != "override_repr"}, formatter=po.get("formatter"))
        os.umask(um)
        dict.update(__import__("matplotlib").rcParams, rc)
        sys.setrecursionlimit(rl)
        sys.path[:] = sp


def imported():
    return {k for k in sys.modules if not k.startswith("tools21cm")}


class Watch:
    """Compares the process before and after."""

    def __init__(self, ctx, w, node, stream, figures=True):
        self.ctx, self.w, self.stream, self.figures = ctx, w, stream, figures
        self.mods = imported()
        self.files = set(w.disk.files())
        self.fds = descriptors()
        self.fp = fingerprint(stream, figures)
        self.set = ops.settings(node)
        self.node = node

    def check(self, what, files=True, settings=True):
        ctx = self.ctx
        world.real_collect()
        if imported() - self.mods:      # another package's first import is not the call's doing
            ctx.probe("imports another package")
            return
        now = fingerprint(self.stream, self.figures)
        bad = differ(self.fp, now)
        ctx.check(not bad, "process-changed/" + (bad[0].replace(" ", "-") if bad else ""),
                  lambda: "%s changed %s" % (what, "; ".join(short(self.fp, now, k) for k in bad)))
        fds = descriptors()
        new = sorted("%d -> %s" % (k, self.w.disk.label(v) if v.startswith(self.w.disk.root) else v) for k, v in fds.items() if self.fds.get(k) != v)
        ctx.check(not new, "descriptor-left-open", lambda: "%s left open %s" % (what, new))
        gone = sorted(k for k in self.fds if k not in fds)
        ctx.check(not gone, "foreign-descriptor-closed", lambda: "%s closed descriptors it did not open: %s" % (what, [self.fds[k] for k in gone]))
        if files:
            extra = sorted(set(self.w.disk.files()) - self.files)
            ctx.check(not extra, "file-left", lambda: "%s left files nobody asked for: %s" % (what, [os.path.relpath(x, self.w.disk.root) for x in extra]))
        now = ops.settings(self.node)
        ctx.check(not settings or ops.same_settings(self.set, now), "settings-changed", lambda: "%s changed %s" % (what, ops.settings_diff(self.set, now)))


def run(ctx):
    ch = ctx.ch
    preload()
    together = ch.flag(0.3)
    w = World(ctx, tracing=True if together else "points")
    w.cpus = 2
    w.use_disk()
    with Place(w.disk):
        (concurrent if together else alone)(ctx, w)


def full_catalogue(g):
    from .S04 import Cat, selection
    d, sub = ops_files.place(g, "c")
    cat = Cat(g.ctx, d, int(sub[1:]))
    sel = selection(g.ctx, cat, 1e6)
    return (lambda t: ops_files.plain(cat.read(t, sel).halos)), (), {}


def parallel(g):
    op = g.ch.weighted(parops.KINDS)(g.ctx)
    n = g.pick(2, 3, 4, 8)
    g.random = isinstance(op, (parops.Noise, parops.AvgMfp, parops.Granulo, parops.Sizes))     # (shuffles its work)
    return (lambda t: op.call(t, n)), (), {}


EXTRA = [("files", "full_catalogue", full_catalogue, False), ("parallel", "parallel", parallel, True)]


def solo(w, c):
    node = w.spawn("solo")
    with node:
        end = w.watch_points()
        w.par_seq = w.par_regions = 0
        r = c.invoke(node)
        n = end()
        n["worker"], n["break"] = w.par_seq, w.par_regions
    w.kill(node)
    return r, n


def hold(node):
    """The session keeps every object it gets from the package."""
    kept = []

    def keeping(init):
        @functools.wraps(init)
        def f(self, *a, **k):
            r = init(self, *a, **k)
            kept.append(self)
            return r
        return f
    for name, m in sorted(node.modules.items()):
        for k, c in sorted(vars(m).items(), key=lambda x: x[0]):
            if isinstance(c, type) and c.__module__ == name and "__init__" in vars(c):
                c.__init__ = keeping(c.__init__)
    return kept


def seeded(node, c):
    try:
        p = inspect.signature(ops.resolve(node, c.fn) if isinstance(c.fn, str) else c.fn).parameters
    except (TypeError, ValueError):
        return False
    return any("seed" in k for k in p)


def alone(ctx, w):
    ch, d = ctx.ch, w.disk
    g = ops.G(ctx)
    fam = ["files"] if ch.flag(0.3) else None
    c = ops.draw_call(ctx, g, fam, at=None if fam else ctx.index)
    if ch.flag(0.2):
        x = ch.weighted([(1, EXTRA[0]), (3, EXTRA[1])])
        c = ops.Call(*x, g)
        c.rand = getattr(g, "random", False)
    d.arm()
    want, n = solo(w, c)
    nops = d.nops
    d.disarm()
    node = w.spawn("session")
    kept = hold(node) if ch.flag(0.5) else []
    with node:
        for i in range(1 + ch.small(3, 0.4)):
            kind = ch.weighted([(3, None), (4, "interrupt"), (2, "memory"), (3, "io"), (4, "disk"), (2, "bad"), (4 if n["worker"] else 0, "worker"), (3 if n["break"] else 0, "break")])
            if kind == "disk" and not nops or kind in n and not n[kind]:
                kind = "interrupt" if n["interrupt"] else None
            ak = c.fresh()
            if kind == "bad":
                from .G02 import spoil
                ak = spoil(ch, ak)
                if ak is None:
                    ak, kind = c.fresh(), None
            unseeded = kind == "bad" and seeded(node, c)        # a call without its seed draws from the session's stream
            watch = Watch(ctx, w, node, not c.rand and c.name not in DRAWS and not unseeded, c.name not in ops.SERIAL)
            hurt_unlink = []
            if kind == "disk":
                at = ch.draw(nops)
                err, stay = DISK_ERR[ch.draw(4)], ch.flag(0.3)
                seen = [0]

                def match(op, path, k, flags):
                    seen[0] += 1
                    if seen[0] - 1 == at or stay and seen[0] - 1 > at:
                        if op in (7, 8):
                            hurt_unlink.append(op)
                        return ("err", err)
                d.arm(match=match)
            elif kind in ("interrupt", "memory", "io"):
                at = w.pick_point(n, kind)
                w.arm_strike(kind, at, ch.pick(ERR) if kind == "io" else 5)
            elif kind == "worker":
                at = ch.draw(n[kind])
                w.par_seq = 0
                w.par_faults = {at: ("kill" if ch.flag(0.35) else "raise", [ValueError, MemoryError, KeyboardInterrupt][ch.draw(3)], 0)}
            elif kind == "break":
                at = 1 + ch.draw(n[kind])
                w.par_regions = 0
                w.par_break = (at, ch.flag(0.5), KeyboardInterrupt)
            else:
                at = 0
            try:
                r = c.invoke(node, ak)
            except KeyboardInterrupt:
                r = ("err", "KeyboardInterrupt")
            w.strike = w.par_break = None
            w.par_faults = {}
            fired = d.fired
            d.disarm()
            where = w.struck if kind in ("interrupt", "memory", "io") else "disk error %s at operation %d (%d hit)" % (err, at, fired) if kind == "disk" else kind
            w.struck = None
            if kind:
                ctx.fault(kind)
                ctx.nontrivial = True
            ctx.schedule(c.label, kind, at)
            ctx.probe("ends: " + r[0])
            ctx.log(c.label, kind, at, where, r[0], r[1] if r[0] == "err" else "")
            r = ak = None
            watch.check("%s, %s," % (c.label, where or "undisturbed"), files=not hurt_unlink,
                        settings=c.name != "full_catalogue")    # that reader sets the constants of its box
            if kept:
                ctx.probe("objects kept")
            kept.clear()


def concurrent(ctx, w):
    ch = ctx.ch
    g = ops.G(ctx)
    a = ops.draw_call(ctx, g, rand=False, skip=ops.SERIAL, at=ctx.index)
    calls = [a]
    for i in range(1 + ch.small(2, 0.25)):
        how = ch.weighted([(3, "variant"), (3, "same"), (2, "tweak"), (1, "other")])
        calls.append(a if how == "same" and a.family != "files" else ops.variant(ctx, a, g) if how in ("variant", "same") else
                     ops.tweak(ctx, a, g) if how == "tweak" else ops.draw_call(ctx, g, rand=False, skip=ops.SERIAL))
    est = hot = 0
    for c in calls:
        node = w.spawn("solo")
        with node:
            w.hot = hot_codes(node)
            l0, h0 = w.lines, w.hot_lines
            c.invoke(node)
            est, hot = est + w.lines - l0, hot + w.hot_lines - h0
        w.kill(node)
    node = w.spawn("session")
    with node:
        watch = Watch(ctx, w, node, not any(c.name in DRAWS for c in calls))
    aks = [c.fresh() for c in calls]
    hot_plan = []
    if hot and ch.flag(0.5):
        plan, hot_plan = [], w.draw_plan(hot, 6, 1)
    else:
        plan = w.draw_plan(est, 8, 1)
    s = sched.Sched(ctx, w, plan, hot_plan=hot_plan)
    tasks = [s.spawn("caller%d" % i, (lambda i=i: calls[i].invoke(node, aks[i])), node) for i in range(len(calls))]
    s.run()
    ctx.nontrivial = s.switches > 0
    ctx.stats["fault:thread_switch"] += s.switches
    ctx.schedule([c.label for c in calls], s.switches)
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    what = "%s in threads with %d switches" % ([c.label for c in calls], s.switches)
    del tasks, s, aks
    with node:
        watch.check(what)
