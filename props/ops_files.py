"""Calls on files: readers, writers, directory helpers. Files are laid out when a call is drawn and not touched afterwards."""
import numpy as np

from . import simfiles
from .ops import op


def place(g, tag):
    """The scratch disk and a directory of this call alone."""
    w = g.ctx.world
    d = w.disk or w.use_disk()
    w.n_places = getattr(w, "n_places", 0) + 1
    return d, "%s%d" % (tag, w.n_places)


def named(g):
    """How the session names a file: in full, unless a check has it name files relative to its directory."""
    w = g.ctx.world
    return lambda p: getattr(w, "naming", str)(p)


def plain(v):
    """A value that compares bit by bit."""
    if isinstance(v, np.ndarray) and v.dtype.names:
        return [list(v.dtype.names), v.shape, v.tobytes().hex()]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "__dict__") and not isinstance(v, (type, np.ndarray)) and not callable(v) and not hasattr(v, "columns"):
        return {k: plain(x) for k, x in sorted(vars(v).items()) if not isinstance(x, str)}
    return v


@op("files")
def read_kind(g):
    d, sub = place(g, "k")
    c = g.ctx
    kind = simfiles.READABLE[c.ch.draw(len(simfiles.READABLE))](c)
    if type(kind).__name__ == "Cbin":
        kind.with_records(c)
    path = d.path(sub, kind.fname)
    d.poke(path, kind.blob)
    nm = named(g)
    return (lambda t: plain(kind.read(t, nm(path)))), (), {}


@op("files")
def write_kind(g):
    d, sub = place(g, "k")
    c = g.ctx
    kind = simfiles.WRITABLE[c.ch.draw(len(simfiles.WRITABLE))](c)
    path = d.path(sub, kind.fname)
    d.poke(path, b"")

    nm = named(g)

    def f(t):
        kind.write(t, nm(path))
        return plain(kind.read(t, nm(path)))
    return f, (), {}


@op("files")
def snapshot(g):
    d, sub = place(g, "n")
    k = (simfiles.Nbody if g.flag() else simfiles.HaloP3M)(g.ctx, 3)
    for f, b in k.files().items():
        d.poke(d.path(sub, "snap", f), b)
    base = d.path(sub, "snap")
    nm = named(g)

    def run(t):
        f = k.open(t, nm(base))
        if isinstance(k, simfiles.Nbody):
            f.read_from_file()
            return [[np.asarray(p.pos), np.asarray(p.vel), int(p.pid) if k.pid else 0] for p in f.nbody]
        return plain(f.halos)
    return run, (), {}


@op("files")
def catalogue(g):
    from .S04 import Cat, selection
    d, sub = place(g, "c")
    cat = Cat(g.ctx, d, int(sub[1:]))
    if cat.kind == "full":              # that reader sets the simulation constants for the box it is given
        cat.kind = "list"
    sel = selection(g.ctx, cat, 1e6)
    nm = named(g)

    def run(t):
        full, cat.path = cat.path, nm(cat.path)
        try:
            return plain(cat.read(t, sel).halos)
        finally:
            cat.path = full
    return run, (), {}


@op("files")
def directory(g):
    from .L02 import Dirs
    d, sub = place(g, "d")
    D = Dirs(g.ctx, _Sub(d, sub))
    which = g.pick("get_xfrac_redshifts", "get_dens_redshifts", "get_zs_list")
    k = "dn" if "dens" in which else "xf"
    kw = {} if which == "get_zs_list" else dict(z_low=g.pick(None, 7., 8.2), z_high=g.pick(None, 9.5, 12.))
    return which, (D.path(k),), kw


class _Sub:
    """The disk, rooted in one directory of it."""

    def __init__(self, d, sub):
        self.d, self.sub = d, sub

    def path(self, *a):
        return self.d.path(self.sub, *a)

    def poke(self, *a):
        return self.d.poke(*a)


@op("files")
def lightcone_files(g):
    from .L01 import Source
    d, sub = place(g, "l")
    s = Source(g.ctx, _Sub(d, sub), 0)
    interp = g.pick("linear", "step", "step_cell", "sigmoid")
    kw = dict(interpolation=interp) if not s.vel else {}
    axis = g.axis()
    return (lambda t: list(s.call(t, dict(kw), axis))), (), {}


@op("files")
def dictionary(g):
    from . import S01
    d, sub = place(g, "y")
    fmt = g.pick("pkl", "json", "yaml", "npz", "csv")
    data = S01.content(g.ctx, fmt)
    path = d.path(sub, "data." + fmt)
    d.poke(path, b"")

    nm = named(g)

    def f(t):
        t.write_dictionary_data(data, nm(path))
        r = t.read_dictionary_data(nm(path))
        return {str(k): plain(v) for k, v in r.items()} if isinstance(r, dict) else plain(r)
    return f, (), {}
