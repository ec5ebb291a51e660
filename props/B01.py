"""Topology numbers under every set of installed accelerators and every requested backend."""
import importlib

import numpy as np
import scipy.ndimage as ndi

from sim.world import World

from . import parops
from .P01 import brief

OPTIONAL = ["tools21cm.ViteBetti_cython", "numba", "multiprocessing.shared_memory"]
BACKENDS = ["cython", "numba", "numpy", "torch", "python", "Cython", "NUMBA", "unknown"]


def groups(mask, labels, sizes):
    """Are these the regions of cells that touch at faces, and their sizes?"""
    want, n = ndi.label(mask)
    labels, sizes = np.asarray(labels), np.asarray(sizes)
    pairs = set(zip(want.ravel().tolist(), labels.ravel().tolist()))
    if len(pairs) != len({p[0] for p in pairs}) or len(pairs) != len({p[1] for p in pairs}) or any((p[0] == 0) != (p[1] == 0) for p in pairs):
        return "the labels are not the %d regions of the field" % n
    if sorted(sizes.tolist()) != sorted(np.bincount(want.ravel(), minlength=n + 1)[1:].tolist()):
        return "sizes %s of %d regions" % (sizes, n)
    return None


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    first = None
    d = parops.field(ctx, 1, 5)
    for r in range(1 + ch.draw(3)):
        gone = tuple(m for m in OPTIONAL if ch.flag(0.45))
        node = w.spawn("machine", absent=gone + ("torch",))
        for m in gone:
            ctx.fault("absent_" + m.split(".")[-1])
        for _ in range(1 + ch.draw(3)):
            if ch.flag(0.3):
                d = parops.field(ctx, 1, 5)
                first = None
            b = BACKENDS[ch.draw(len(BACKENDS))]
            thres = [0.5, 0.3, 0.][ch.draw(3)]
            nb = [6, 26, 4, 18][ch.draw(4)]
            n = [None, 1, 2, 3, -1, 7][ch.draw(6)]
            w.cpus = [4, 1, 2][ch.draw(3)]
            want = parops.euler_exact(d, thres, nb)
            with node:
                t = node.t2c
                got = t.EulerCharacteristic(d, thres=thres, neighbors=nb, speed_up=b, verbose=ch.flag(0.2), n_jobs=n)
                ctx.check(got == want, "wrong-value", lambda: "EulerCharacteristic with backend %s, n_jobs=%s, %s absent: %r, exact %r"
                          % (b, n, gone, got, want))
                if ch.flag(0.4):
                    b0, b2 = t.betti0(d, thres=thres, neighbors=nb), t.betti2(d, thres=thres, neighbors=nb)
                    b1 = t.betti1(d, thres=thres, neighbors=nb, speed_up=b, verbose=False, n_jobs=n)
                    ctx.check(b1 == b0 + b2 - want, "wrong-value", lambda: "betti1 with backend %s, %s absent: %r, want %r"
                              % (b, gone, b1, b0 + b2 - want))
                    if ch.flag(0.5):
                        g = float(t.genus(d, xth=thres))
                        if first is None:
                            first = {}
                        ctx.check(first.setdefault(thres, g) == g, "wrong-value", lambda: "genus differs between machines: %r and %r" % (first[thres], g))
            if ch.flag(0.3):
                how = ch.pick(["FoF_search", "fof"])
                e = d if ch.flag(0.7) else d[0] if ch.flag(0.5) else d[0, 0]
                with node:
                    t = node.t2c
                    a = t.FoF_search(e, thres) if how == "FoF_search" and hasattr(t, "FoF_search") else \
                        importlib.import_module("tools21cm.Friends_of_Friends").FoF_search(e, thres) if how == "FoF_search" else t.fof(e, xth=thres)
                bad = groups(e > thres if how == "FoF_search" else e >= thres, *a)
                ctx.check(bad is None, "wrong-value", lambda: "%s, threshold %s: %s" % (how, thres, bad))
                ctx.probe(how)
            ctx.schedule(b, n, gone, nb)
            ctx.nontrivial = True
