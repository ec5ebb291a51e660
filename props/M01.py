"""Results do not depend on the directory, environment, installed extras or leftovers of the machine a session runs on."""
import builtins
import errno
import io
import os
import re
import sys
import tempfile
import warnings

import numpy as np

from sim.core import Violation
from sim.world import World, _Sink
from . import ops
from .T01 import brief

# calls that open data files of the package
DATA = ["layouts", "use_error", "SEFD_sources", "noise_map", "get_uv_map", "uv_lightcone", "uv_lightcone_serial", "noise_cube_coeval", "noise_lightcone",
        "stamps", "gains", "noise_maps_computed", "noise_ps_more", "uv_filename"]
EXTRAS = ["numba", "tools21cm.ViteBetti_cython", "multiprocessing.shared_memory"]
ENV = {"LANG": ["C", "de_DE.UTF-8"], "LC_ALL": ["C", "POSIX"], "LC_NUMERIC": ["de_DE.UTF-8"], "TZ": ["Asia/Kathmandu", "UTC"], "COLUMNS": ["20"], "USER": ["nobody"],
       "OMP_NUM_THREADS": ["3"], "JOBLIB_MULTIPROCESSING": ["0"], "NUMBA_DISABLE_JIT": ["1"], "TOOLS21CM_DATA": ["."], "HOSTNAME": ["node17"], "SLURM_CPUS_PER_TASK": ["2"],
       "PWD": ["/nonexistent"]}
SETTERS = [("set_hubble_h", 0.6), ("set_omega_matter", 0.31), ("set_omega_lambda", 0.6), ("set_sim_constants", 244), ("set_omega_baryon", 0.05)]


class BrokenOutput(_Sink):
    """Standard output on a full disk or a closed pipe."""

    def __init__(self, ctx, err):
        self.ctx, self.err, self.n = ctx, err, 0

    def write(self, s):
        self.n += 1
        self.ctx.stats["fault:output_fails"] += 1
        raise OSError(self.err, os.strerror(self.err))


_decoys = {}


def decoys():
    """Files named as the package's own data, with other numbers in them."""
    if not _decoys:
        from sim.build import REPO
        src = os.path.join(REPO, "src", "tools21cm", "input_data")
        for f in sorted(os.listdir(src)):
            if f.endswith((".txt", ".dat")):
                text = open(os.path.join(src, f), errors="replace").read()
                lines = text.split("\n")
                out = [ln if ln.lstrip().startswith("#") else re.sub(r"\d(?=\d*\.\d)", lambda m: str((int(m.group()) + 1) % 10), ln) for ln in lines]
                _decoys[f] = "\n".join(out).encode()
    return _decoys


class Looks:
    """Names below some directories, and environment variables, that package code looks for and does not find."""
    LIB = ("_collections_abc", "collections", "numpy", "genericpath", "posixpath", "os", "pathlib", "io", "codecs", "contextlib", "importlib")

    def __init__(self, roots):
        self.roots, self.names = [os.path.realpath(r) + os.sep for r in roots], []
        self.env = []

    def __enter__(self):
        self.real = {k: getattr(os, k) for k in ("stat", "access", "open", "listdir", "scandir")}
        self.io = builtins.open, io.open
        for k, f in self.real.items():
            setattr(os, k, self.wrap(f))
        builtins.open = io.open = self.wrap(self.io[0])
        E = type(os.environ)
        self.item, self.has = E.__getitem__, E.__contains__

        def item(env, k):
            try:
                return self.item(env, k)
            except KeyError:
                self.note_env(k)
                raise

        def has(env, k):
            r = self.has(env, k)
            if not r:
                self.note_env(k)
            return r
        E.__getitem__, E.__contains__ = item, has
        return self

    def __exit__(self, *a):
        for k, f in self.real.items():
            setattr(os, k, f)
        builtins.open, io.open = self.io
        E = type(os.environ)
        E.__getitem__, E.__contains__ = self.item, self.has

    def note_env(self, k):
        if isinstance(k, str) and k not in self.env and self.ours():
            self.env.append(k)

    def ours(self):
        """Is it package code that looks?"""
        fr = sys._getframe(3)
        while fr is not None and (fr.f_globals.get("__name__") or "").split(".")[0] in self.LIB:
            fr = fr.f_back
        return fr is not None and (fr.f_globals.get("__name__") or "").split(".")[0] == "tools21cm"

    def wrap(self, real):
        def f(*a, **k):
            try:
                return real(*a, **k)
            except (FileNotFoundError, NotADirectoryError):
                p = a[0] if a else k.get("path", k.get("file"))
                if isinstance(p, (str, os.PathLike)):
                    self.note(os.fspath(p))
                raise
        return f

    def note(self, p):
        if isinstance(p, bytes):
            return
        q = os.path.normpath(os.path.join(os.getcwd(), p))
        if not q.startswith(tuple(self.roots)) or q in self.names:
            return
        if self.ours():
            self.names.append(q)


class Machine:
    def __init__(self, ctx, w):
        ch = ctx.ch
        self.ctx, self.w = ctx, w
        self.d = d = w.disk
        self.cwd, self.home, self.tmp = (os.path.join(d.root, x) for x in ("work", "home", "tmp"))
        self.traits = []
        for x in (self.cwd, self.home, self.tmp):
            os.makedirs(x)
        if ch.flag(0.5):
            self.traits.append("decoys")
            for where in ch.subset([self.cwd, self.home, self.tmp], 0.6) or [self.cwd]:
                for sub in ("", "input_data", "tools21cm/input_data", "src/tools21cm/input_data"):
                    for f, b in decoys().items():
                        d.poke(os.path.join(where, sub, f), b)
        self.env = {"HOME": self.home, "TMPDIR": self.tmp, "XDG_CACHE_HOME": os.path.join(self.home, ".cache"), "XDG_DATA_HOME": os.path.join(self.home, ".local")}
        if ch.flag(0.4):
            self.traits.append("env")
            for k in sorted(ENV):
                if ch.flag(0.4):
                    self.env[k] = ENV[k][ch.draw(len(ENV[k]))]
        self.argv = ch.pick([None, ["run.py", "7.059", "--ncells", "12"], [""], ["-c"]])
        self.print = ch.pick([None, dict(precision=2), dict(precision=1, suppress=True), dict(threshold=3, edgeitems=1), dict(legacy="1.13"), dict(formatter={"float": lambda x: "?"})])
        self.err = ch.weighted([(4, None), (1, "warn"), (1, "ignore"), (2, "raise"), (1, "print")])
        self.warn = ch.weighted([(4, None), (2, "error"), (1, "always"), (1, "ignore")])
        self.absent = tuple(m for m in EXTRAS if ch.flag(0.25))
        self.out = ch.weighted([(5, None), (1, errno.ENOSPC), (1, errno.EPIPE)])
        self.cpus = [2, 1, 3, 8, 64][ch.draw(5)]
        self.listing = ch.draw(1000)
        self.mode = ch.pick(["tick", "jumpy", "backward", "frozen", "stall"])
        self.early = ch.flag(0.5)
        for n in ("argv", "print", "err", "warn", "absent", "out"):
            if getattr(self, n):
                self.traits.append(n if n != "err" else "err_" + self.err)
        for t in self.traits:
            ctx.fault("machine_" + t)

    def __enter__(self):
        w = self.w
        self.saved = (os.getcwd(), dict(os.environ), sys.argv, np.get_printoptions(), tempfile.tempdir, sys.stdout, w.cpus, w.listing_seed, w.clock.mode)
        os.chdir(self.cwd)
        os.environ.update(self.env)
        tempfile.tempdir = None
        if self.argv is not None:
            sys.argv = self.argv
        if self.print:
            np.set_printoptions(**self.print)
        w.cpus, w.listing_seed, w.clock.mode = self.cpus, self.listing, self.mode
        self.broken = BrokenOutput(self.ctx, self.out) if self.out else None
        if self.broken:
            sys.stdout = self.broken
        self.quiet = warnings.catch_warnings()
        self.quiet.__enter__()
        if self.warn:
            warnings.simplefilter(self.warn)
        self.np_err = np.geterr()
        if self.err:
            np.seterr(**{k: self.err for k in self.np_err})
        return self

    def __exit__(self, *a):
        w = self.w
        np.seterr(**self.np_err)
        self.quiet.__exit__(None, None, None)
        cwd, env, sys.argv, po, tempfile.tempdir, sys.stdout, w.cpus, w.listing_seed, w.clock.mode = self.saved
        if self.print:
            np.set_printoptions(**dict(po, formatter=None))
        for k in [k for k in os.environ if k not in env]:
            del os.environ[k]
        os.environ.update(env)
        os.chdir(cwd)

    def may_fail(self):
        """Why a call may raise here that returns elsewhere."""
        return bool(self.absent) or self.err == "raise" or self.warn == "error" or bool(self.broken and self.broken.n)


def relative(c, root, cwd):
    """The same call with its files named relative to the current directory."""
    n = [0]

    def f(x):
        if isinstance(x, str) and x.startswith(root + os.sep):
            n[0] += 1
            return os.path.relpath(x, cwd) + (os.sep if x.endswith(os.sep) else "")
        if isinstance(x, list):
            return [f(y) for y in x]
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return x
    a, k = c.fresh()
    return (tuple(f(x) for x in a), {q: f(v) for q, v in k.items()}), n[0]


def planted(ctx, w, m, c, start):
    """Whatever the call looks for in the directories of the machine, and nobody named, is there."""
    d, ch = w.disk, ctx.ch
    with m:
        with Looks((m.cwd, m.home, m.tmp)) as looks:
            probe = start("probe")
            with probe:
                ak = c.fresh()
                try:
                    c.invoke(probe, ak)
                except Violation:
                    raise
                except BaseException:
                    pass
    w.kill(probe)
    for k in looks.env:
        m.env[k] = ["1", "0", "0.5", "2", "true", "/nonexistent"][ch.draw(6)]
        ctx.fault("set_where_looked_for")
        ctx.log("environment", k, m.env[k])
    own = repr(ak)
    for q in looks.names:
        if os.path.basename(q) in own or os.path.exists(q):
            continue
        b = decoys().get(os.path.basename(q)) or [list(decoys().values())[ch.draw(len(decoys()))], b"0.5\n", b"{}\n"][ch.draw(3)]
        try:
            d.poke(q, b)
        except OSError:
            continue
        ctx.fault("planted_where_looked_for")
        ctx.log("planted", os.path.relpath(q, d.root))


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    w.cpus = 2
    d = w.use_disk()
    g = ops.G(ctx)
    if ch.flag(0.15):
        name = DATA[ctx.index % len(DATA)]
        r = [r for r in ops.REG if r[1] == name][0]
        c = ops.Call(*r[:2], r[2], r[3], g)
    else:
        c = ops.draw_call(ctx, g, at=ctx.index)
    cosmo = [SETTERS[ch.draw(len(SETTERS))]] if ch.flag(0.3) else []

    def start(name, **k):
        node = w.spawn(name, **k)
        with node:
            for f, v in cosmo:
                getattr(node.t2c, f)(v)
        return node
    plain = start("plain")
    with plain:
        ak = c.fresh()
        p0 = w.clock.readings
        want = c.invoke(plain, ak)
    w.kill(plain)
    w.clock.limit = w.clock.readings + max(30000, 50 * (w.clock.readings - p0))
    m = Machine(ctx, w)
    ctx.log("machine", c.label, m.traits, m.cpus, m.mode, cosmo)
    ctx.schedule(c.label, m.traits, m.cpus)
    # sessions that ran here before
    for i in range(ch.draw(3) if ch.flag(0.6) else 0):
        how = ch.weighted([(3, "same"), (3, "tweak"), (2, "variant"), (1, "other")])
        b = c if how == "same" else ops.tweak(ctx, c, g) if how == "tweak" else ops.variant(ctx, c, g) if how == "variant" else ops.draw_call(ctx, g)
        power = ch.flag(0.3)
        cut = ch.draw(8) if ch.flag(0.4) else None
        other = ch.flag(0.6)
        d.arm({cut: ("crash", ch.draw(4096))} if cut is not None else {}, power=power and cut is not None)
        old = w.spawn("earlier%d" % i)
        with m:
            with old:
                if other:
                    f, v = SETTERS[ch.draw(len(SETTERS))]
                    getattr(old.t2c, f)(v)
                try:
                    b.invoke(old)
                except Violation:
                    raise
                except BaseException:
                    pass
        ctx.log("earlier", how, other, "died" if d.dead else "")
        died = d.dead
        w.kill(old)
        if died:
            d.restart()
        d.disarm()
        ctx.fault("earlier_session")
        if c.family == "files" and how == "same" and died:
            return                          # its own files may be cut
    if ("decoys" in m.traits or "env" in m.traits) and ch.flag(0.5):
        planted(ctx, w, m, c, start)
    with m:
        node = start("session", absent=m.absent)
        with node:
            ak, rel = c.fresh(), 0
            if ch.flag(0.5):
                ak, rel = relative(c, d.root, m.cwd)
                if c.family == "files":
                    w.naming = lambda p: os.path.relpath(p, m.cwd)
                    rel = 1
                ctx.stats["fault:relative_names"] += rel
            if m.err:
                np.seterr(**{k: m.err for k in np.geterr()})    # importing the package sets its own
            got = c.invoke(node, ak)
            may = m.may_fail()
            w.naming = str
            np.seterr(**m.np_err)
    what = "%s in a session with %s, %d CPUs, settings %s%s" % (c.label, m.traits, m.cpus, cosmo, ", relative names" if rel else "")
    if not (may and got[0] == "err"):
        ctx.check(ops.agree(want, got), "machine-dependent", lambda: "%s: %s, elsewhere: %s" % (what, brief(got), brief(want)))
    ctx.probe(got[0] if ops.agree(want, got) else "refused")
    if m.broken and m.broken.n or got[0] == "err" != want[0]:
        # its output works again, and the checks that made it raise are off: the session is as good as any
        with node:
            again = c.invoke(node)
        if not m.absent:
            ctx.check(ops.agree(want, again), "unusable-afterwards", lambda: "%s, afterwards: %s, elsewhere: %s" % (what, brief(again), brief(want)))
    ctx.nontrivial = bool(m.traits)
