"""Clock, pauses and verbosity never influence results."""
import inspect
import os
import random

import numpy as np

from sim.core import Violation
from sim.world import World
from . import ops
from .T01 import brief

# functions that read the clock, pause or report progress get most runs
USERS = {"fof", "spa", "mfp", "granulo", "watershed_bsd", "percolation", "lightcone", "noise_cube_coeval", "noise_lightcone", "superpixels", "slic",
         "euler", "betti", "bispectrum", "fftconvolve", "fft_nd", "fit_function", "mfp_np", "get_uv_map", "uv_lightcone", "gains", "stamps",
         "smooth_lightcone", "smooth_coeval", "phys_to_obs", "obs_to_phys", "get_distorted_dt", "pdps", "tau", "tau_map", "ps_fast",
         "calc_dt_lightcone", "primary_beam", "noise_map", "use_error", "interpolated_array", "voigt", "landy_szalay",
         "fit_cv", "superpixels_more", "sizes", "empty_regions", "mfp_more", "friends_more", "SEFD_sources", "gain_models", "gain_images",
         "stamp_map", "stamp_tags", "uv_lightcone_serial", "noise_maps_computed", "noise_ps_more", "beams", "uv_filename",
         "smooth_lightcone_low", "smooth_line_kinds", "fftconvolve_more", "tau_dict", "halo2grid_more", "layouts"}
LIMIT = 30000


def halos(ctx, w, d):
    """A catalogue reader as a call: it times itself and reports."""
    rng = np.random.RandomState(ctx.npseed())
    n = 1 + ctx.ch.draw(8)
    kind = ctx.ch.draw(2)
    if kind == 0:
        path = os.path.join(d.root, "7.059halos.dat")
        rows = []
        for i in range(n):
            rows.append(" ".join("%.6g" % x for x in list(rng.rand(3) * 100) + list(rng.rand(3)) + list(rng.rand(11) * 1e3) + list(rng.rand(40))))
        with open(path, "w") as f:
            f.write("\n".join(rows) + "\n")

        def read(t):
            h = t.HaloCubeP3MFull(path, box_len=244)
            return [[v for k, v in sorted(vars(x).items())] for x in h.halos]
    else:
        path = os.path.join(d.root, "xfrac3d_7.059.bin")

        def read(t):
            f = t.XfracFile()
            f.xi = rng2(n)
            f.mesh_x = f.mesh_y = f.mesh_z = 4
            f.z = 7.059
            f.write_to_file(path)
            return t.XfracFile(path).xi

        def rng2(n):
            return np.random.RandomState(n).rand(4, 4, 4)
    c = ops.Call.__new__(ops.Call)
    c.family, c.name, c.rand, c.fn, c.args, c.kw, c.label, c.nseed = "files", "files%d" % kind, False, read, (), {}, "files%d" % kind, 0
    return c


def has_verbose(node, fn):
    try:
        return "verbose" in inspect.signature(ops.resolve(node, fn)).parameters
    except (TypeError, ValueError):
        return False


def draw(ctx, g, w, d):
    ch = ctx.ch
    if ch.flag(0.05):
        return halos(ctx, w, d)
    if ch.flag(0.75):
        rs = [r for r in ops.REG if r[1] in USERS]
        r = rs[ch.draw(len(rs))]
        return ops.Call(*r[:2], r[2], r[3], g)
    return ops.draw_call(ctx, g)


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    w.cpus = 2
    d = w.use_disk()
    g = ops.G(ctx)
    c = draw(ctx, g, w, d)
    calm = w.spawn("calm")
    w.clock.limit = LIMIT
    with calm:
        r0 = w.clock.readings + w.clock.sleeps
        want = c.invoke(calm)
        used = w.clock.readings + w.clock.sleeps - r0
        hv = isinstance(c.fn, str) and has_verbose(calm, c.fn)
    if used:
        ctx.probe("call uses the clock")
    node = w.spawn("session")
    kw = c.kw
    with node:
        for i in range(1 + ch.draw(2)):
            w.clock.mode = ch.pick(["jumpy", "backward", "frozen", "stall", "tick"])
            if ch.flag(0.3):
                w.clock.now = ch.pick([1.0, 0.0, 2.5e9, 951782400.0 - 1e-4])      # the epoch, a far future, a leap day
            loud = ch.pick([None, True, False])
            if loud is not None:
                node.t2c.set_verbose(loud)
            c.kw = dict(kw, verbose=ch.flag(0.6)) if hv and ch.flag(0.6) else kw
            w.clock.limit = w.clock.readings + w.clock.sleeps + LIMIT
            ctx.log(c.label, w.clock.mode, loud, c.kw.get("verbose"))
            ctx.schedule(c.label, w.clock.mode, loud, c.kw.get("verbose"))
            got = c.invoke(node)
            ctx.check(ops.agree(want, got), "clock-dependent",
                      lambda: "%s with clock %s, messages %s, verbose=%s: %s, with a steady clock: %s" % (
                          c.label, w.clock.mode, loud, c.kw.get("verbose"), brief(got), brief(want)))
            ctx.probe(w.clock.mode)
            if w.clock.mode == "stall":
                ctx.fault("slow_clock")
    c.kw = kw
    ctx.nontrivial = True
