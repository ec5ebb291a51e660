"""Directories of snapshots: redshift lists and coeval cubes under every listing order."""
import errno

import numpy as np

from sim.core import Violation
from sim.world import World

from .parops import eq
from .simfiles import i4

Z = [6.0, 6.418, 7.059, 8.0, 8.515, 9.026, 9.938, 10.11, 10.5, 12.048, 15.132, 19.5]
JUNK = ["notes.txt", ".hidden", "%.3fc_all.dat", "%.3fn_all.dat.part", ".%.3fn_all.dat", ".%.3fv_all.dat", "xfrac3d_%.3f.bin.tmp",
        ".xfrac3d_%.3f.bin", "Temper3D_%.3f.bin", "%.3f-coarsest_sources.dat", ".%.3f-coarsest_wsubgrid_sources.dat",
        ".xfrac3d_%.3f.bin.77-1.tmp.bin", "%.3fhalo.dat", "IonRates3_%.3f.bin", "%.3fxv0.dat", "xfrac3d_%.3f.bin~",
        "%.3fn_all.dat.swp", "%.3f-coarsest_wsubgrid_sources.dat.old"]


class Dirs:
    def __init__(self, ctx, d):
        ch = ctx.ch
        self.d = d
        self.n = 1 + ch.draw(3)
        shape = (self.n,) * 3
        rng = np.random.RandomState(ctx.npseed())
        self.one = ch.flag(0.4)         # everything in one directory
        self.base = ch.pick(["run", "run_2", "run-1n_all", "x3d_7.000", "a.b"])
        self.xf, self.dn, self.vl, self.sr = {}, {}, {}, []
        files = []
        if ch.flag(0.6):
            zs = ch.shuffle(Z)[:1 + ch.draw(6)] if ch.flag(0.75) else ch.shuffle(Z)[:9 + ch.draw(4)]
            same = ch.flag(0.7)
        else:
            zs, same = ch.shuffle(Z)[:2], True
        for z in zs:
            self.xf[z] = rng.uniform(0, 1, shape)
            b = self.xf[z].astype("<f8").tobytes("F")
            files.append((self.dir("xf"), "xfrac3d_%.3f.bin" % z, i4(12, *shape) + i4(12, len(b)) + b + i4(len(b))))
        zd = zs if same else ch.shuffle(Z)[:1 + ch.draw(6)]
        for z in ch.shuffle(zd):
            self.dn[z] = (rng.uniform(0.5, 9, shape) * 1e10).astype("f4")    # single precision underflows on a tiny mesh
            files.append((self.dir("dn"), "%.3fn_all.dat" % z, i4(*shape) + self.dn[z].astype("<f4").tobytes("F")))
        zv = [z for z in zd if ch.flag(0.8)] or zd[:1]
        for z in ch.shuffle(zv):
            self.vl[z] = rng.uniform(-9e10, 9e10, (3,) + shape).astype("f4")
            files.append((self.dir("vl"), "%.3fv_all.dat" % z, i4(*shape) + self.vl[z].astype("<f4").tobytes("F")))
        for z in ch.shuffle(Z)[:1 + ch.draw(5) + (7 if ch.flag(0.2) else 0)]:
            self.sr.append(z)
            files.append((self.dir("sr"), "%.3f-coarsest_wsubgrid_sources.dat" % z, b"1\n"))
        for _ in range(ch.draw(8)):
            j = ch.pick(JUNK)
            z = ch.pick(Z + [5.0, 30.25])
            files.append((self.dir(ch.pick(["xf", "dn", "vl", "sr"])), j % z if "%" in j else j, b"\0" * ch.draw(40)))
        for sub, f, b in ch.shuffle(files):
            d.poke(d.path(sub, f), b)
        self.slash = ch.flag(0.3)

    def dir(self, k):
        return self.base if self.one else self.base + "/" + k

    def path(self, k):
        return self.d.path(self.dir(k)) + ("/" if self.slash else "")


def between(cubes, z, p=None):
    """Expected cube at z, or None when there is no enclosing pair."""
    if z in cubes:
        return cubes[z].astype("f8")
    lo = [x for x in cubes if x < z]
    hi = [x for x in cubes if x > z]
    if not lo or not hi:
        return None
    a, b = max(lo), min(hi)
    f = (z - a) / (b - a)
    return cubes[a].astype("f8") * (1 - f) + cubes[b].astype("f8") * f


def close(a, b, tol):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    return a.shape == b.shape and bool(np.all(abs(a - b) <= tol * (np.abs(b).max() + 1e-300)))


def listing(ctx, D, t):
    ch = ctx.ch
    which = ch.pick(["xf", "dn", "sr", "zs-xf", "zs-dn"])
    zs = sorted({"xf": D.xf, "dn": D.dn, "sr": D.sr}[which[-2:]])
    if which.startswith("zs"):
        what = "get_zs_list of " + which[3:]
        f = t.get_zs_list
        want = zs
        a = (D.path(which[3:]),) + (() if which == "zs-xf" and ch.flag(0.5) else
                                    ("/xfrac3d_*.bin" if which == "zs-xf" else "/*n_all.dat",))
        kw = {}
    else:
        f = {"xf": t.get_xfrac_redshifts, "dn": t.get_dens_redshifts, "sr": t.get_source_redshifts}[which]
        kw = {}
        cand = zs + [zs[0] - 1, zs[-1] + 1, (zs[0] + zs[-1]) / 2, 8.2, 9.5]
        lo = ch.pick([None] + cand)
        hi = ch.pick([None] + cand)
        br = ch.flag(0.4)
        if br:
            lo = 8.2 if lo is None else lo
            hi = 9.5 if hi is None else hi
            if lo > hi:
                lo, hi = hi, lo
        kw = dict(z_low=lo, z_high=hi, bracket=br)
        kw = {k: v for k, v in kw.items() if v or ch.flag(0.5)}
        lo, hi = kw.get("z_low"), kw.get("z_high")
        if kw.get("bracket"):
            want = None
            if lo >= zs[0] and hi <= zs[-1]:
                lo, hi = max(z for z in zs if z <= lo), min(z for z in zs if z >= hi)
                want = [z for z in zs if lo <= z <= hi]
        else:
            want = [z for z in zs if (lo is None or z >= lo) and (hi is None or z <= hi)]
        what = "redshifts of %s in %s with %s" % (which, D.base, kw)
        a = (D.path(which),)
    try:
        got = f(*a, **kw)
    except Exception as e:
        if want:
            raise Violation("listing-failed", "%s: %s: %s (stored: %s)" % (what, type(e).__name__, e, zs))
        return
    ctx.check(want is not None, "listing-unbracketed", lambda: "%s: answered %s though the range is not enclosed by %s" % (what, got, zs))
    ctx.check(list(np.asarray(got, "f8")) == want, "wrong-listing",
              lambda: "%s: %s, expected %s (stored: %s)" % (what, list(got), want, zs))


def coeval(ctx, D, node, d):
    ch = ctx.ch
    t = node.t2c
    rf = t.read_files if hasattr(t, "read_files") else t
    kind = ch.pick(["coeval_xfrac", "coeval_dens", "coeval_overdens", "coeval_vel", "coeval_21cm", "coeval_xfrac_c2ray", "coeval_dens_c2ray",
                    "coeval_21cm_c2ray"])
    every = sorted(set(D.xf) | set(D.dn) | set(D.vl))
    z = ch.pick(every) if ch.flag(0.5) else ch.pick([6.2, 7.0, 7.777, 8.7, 9.5, 10.3, 11., 14.2, 5.5, 22.])
    c = t.const.rho_crit_0 * (float(D.n) / float(t.conv.nbox_fine)) ** 3 * t.const.OmegaB
    dens = {k: v.astype("f8") * c for k, v in D.dn.items()}

    def scaled():
        if z in dens:
            return dens[z]
        hi = [x for x in dens if x > z]
        return dens[min(hi)] * ((1 + min(hi)) / (1 + z)) ** 3 if hi else None
    X = between(D.xf, z)
    a = (D.path("xf"), D.path("dn"))
    mean = False
    if kind.startswith("coeval_xfrac"):
        want, a = X, a[:1]
    elif kind == "coeval_dens":
        want, a = between(dens, z), a[1:]
    elif kind == "coeval_dens_c2ray":
        want, a = scaled(), a[1:]
    elif kind == "coeval_overdens":
        want, a = between(dens, z), a[1:]
        if want is not None:
            want = want / want.mean() - 1
    elif kind == "coeval_vel":
        zz = {k: v.astype("f8") * t.conv.velconvert(k) * 8 / D.dn[k] for k, v in D.vl.items()}
        want, a = between(zz, z), (D.path("dn"), D.path("vl"))
    else:
        N = between(dens, z) if kind == "coeval_21cm" else scaled()
        want = None if X is None or N is None else t.calc_dt(X, N, z=z)
        mean = ch.flag(0.3)
        if want is not None and mean:
            want = want - (want.mean() if kind == "coeval_21cm" else want.mean(axis=(0, 1), keepdims=True))
    f = getattr(t, kind)
    kw = {"mean_subtract": True} if mean else {}
    what = "%s at z=%s (ionization %s, density %s, velocity %s)" % (kind, z, sorted(D.xf), sorted(D.dn), sorted(D.vl))
    ctx.log(what)
    plan = {}
    if ch.flag(0.25) and want is not None:
        d.arm()
        f(*a, z, **kw)
        total = max(1, d.nops)
        d.disarm()
        plan[ch.draw(total)] = ("err", ch.pick([errno.EIO, errno.EACCES])) if ch.flag(0.7) else ("short", ch.draw(64))
    d.arm(plan)
    err = got = None
    try:
        got = f(*a, z, **kw)
    except Violation:
        raise
    except Exception as e:
        err = e
    fired = d.fired
    d.disarm()
    if err is not None:
        ctx.check(want is None or fired, "coeval-failed", lambda: "%s: %s: %s" % (what, type(err).__name__, err))
    else:
        ctx.check(want is not None, "coeval-unbracketed", lambda: "%s: returned a cube outside the stored redshifts" % what)
            # the factor from file to physical density is a single-precision number, denormal for a tiny mesh
        tol = 2e-5 + (0 if kind.startswith("coeval_xfrac") else 4e-45 / c)
        scale = np.abs(want).max()
        ctx.check(close(got, want, tol) or (mean or kind == "coeval_overdens") and
                  np.allclose(got, want, atol=tol * 10 * (1 + scale)), "wrong-cube",
                  lambda: "%s: not the cube of the enclosing redshifts (max %g, expected %g)" % (what, np.abs(got).max(), scale))


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    d = w.use_disk()
    node = w.spawn("session")
    D = Dirs(ctx, d)
    with node:
        if ch.flag(0.4):
            node.t2c.set_sim_constants(ch.pick([64, 500, 114]))
        for _ in range(3 + ch.draw(4)):
            w.listing_seed = 1 + ch.draw(1 << 16)
            ctx.schedule("order", w.listing_seed)
            if ch.flag(0.5):
                listing(ctx, D, node.t2c)
            else:
                coeval(ctx, D, node, d)
    ctx.nontrivial = True
