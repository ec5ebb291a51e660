"""Lightcones from snapshots: every slice from its own bracket, any spacing, source of snapshots and read fault."""
import errno
import os

import numpy as np

from sim.core import Violation
from sim.world import World

from .parops import eq
from .simfiles import i4

SETTINGS = [lambda t: t.set_sim_constants(64), lambda t: t.set_sim_constants(500), lambda t: t.set_hubble_h(0.5),
            lambda t: t.set_omega_matter(0.32), lambda t: t.set_sim_constants(244), lambda t: t.set_omega_lambda(0.5)]
BOXES = [None, None, 200., 900., 3000.]


class Params:
    def __init__(self, c, conv):
        self.h0, self.om, self.la, self.lb = c.H0, c.Omega0, c.lam, conv.LB


def out_redshifts(p, zs, z_low, z_high, n, box, dnu):
    """Independent statement of the sampling: one cell of the box, or one channel, per slice."""
    nu0, c = 1420., 3e5
    lo = min(zs) if z_low is None else z_low
    hi = max(zs) if z_high is None else z_high
    out = []
    if dnu:
        nu = nu0 / (1 + hi)
        while nu0 / nu - 1 > lo:
            out.append(nu0 / nu - 1)
            nu += dnu
        out = out[::-1]
    else:
        z = lo
        L = p.lb if box is None else box
        while z < hi:
            out.append(z)
            nu = nu0 / (1 + z)
            z = nu0 / (nu - nu0 * p.h0 * np.sqrt(p.om * (1 + z) ** 3 + p.la) * L / (1 + z) ** 2 / c / n) - 1
    return lo, hi, np.array(out)


def expect(cubes, zs, z, i, axis, interp):
    """(lowest, highest) admissible value of slice i at redshift z."""
    order = np.argsort(zs)
    s = np.asarray(zs)[order]
    if z >= s[-1]:
        a, b = len(s) - 2, len(s) - 1
    else:
        b = int(np.searchsorted(s, z, side="right"))
        a = b - 1
    A, B = cubes[order[a]], cubes[order[b]]
    n = A.shape[-3:][axis]
    lead = (slice(None),) * (A.ndim - 3)
    ix = lead + tuple(i % n if k == axis else slice(None) for k in range(3))
    A, B = A[ix].astype("f8"), B[ix].astype("f8")
    f = (z - s[a]) / (s[b] - s[a])
    if interp == "linear":
        v = A * (1 - f) + B * f
    elif interp == "sigmoid":
        g = 1 / (1 + np.exp(-2 * (20 * f - 10)))
        v = A * (1 - g) + B * g
    elif interp == "step":
        if abs(f - 0.5) < 1e-9:
            return np.minimum(A, B), np.maximum(A, B), None
        v = A if f < 0.5 else B
    else:
        return np.minimum(A, B), np.maximum(A, B), (A, B)
    return v, v, None


class Source:
    def __init__(self, ctx, d, r):
        ch = ctx.ch
        self.n = 2 + ch.draw(4)
        k = 2 + ch.draw(5)
        z, zs = 6.0 + ch.draw(3), []
        for _ in range(k):
            zs.append(round(z, 3))
            z += [0.07, 0.2, 0.45, 1.1, 2.3, 0.011, 0.004][ch.draw(7)]
        self.zs = zs
        self.vel = ch.flag(0.3)
        rng = np.random.RandomState(ctx.npseed())
        shape = (self.n,) * 3
        self.kind = ch.pick(["dict", "dict", "xfrac", "density", "cbin", "reader"])
        if self.vel and self.kind != "dict":
            self.kind = "velfiles"
        if self.kind in ("dict", "reader") and ch.flag(0.2):        # two snapshots closer than file names can tell
            j = ch.draw(k)
            zs.insert(j + 1, zs[j] + [2e-4, 4e-4, 1e-5][ch.draw(3)])
            k += 1
            ctx.probe("close snapshots")
        dt = "f4" if self.kind in ("density", "cbin", "velfiles") or ch.flag(0.5) else "f8"
        top = 1. if self.kind == "xfrac" else 50.
        self.cubes = [rng.uniform(0, top, ((3,) if self.vel else ()) + shape).astype(dt) for _ in zs]
        if not self.vel and ch.flag(0.2):           # snapshots that hardly differ
            for c in self.cubes[1:]:
                c[...] = self.cubes[0]
                c.flat[rng.randint(c.size)] += top / 2 if ch.flag(0.5) else 0
        self.perm = ch.shuffle(list(range(k)))
        self.dir = "s%d" % r
        self.d = d
        self.files = []
        if self.kind == "velfiles":
            self.dens = [rng.uniform(0.5, 9, shape).astype("f4") for _ in zs]
        for z, c in zip(zs, self.cubes):
            if self.kind == "xfrac":
                b = c.astype("<f8").tobytes("F")
                self.files.append(("xfrac3d_%.3f.bin" % z, i4(12, *shape) + i4(12, len(b)) + b + i4(len(b))))
            elif self.kind == "density":
                self.files.append(("%.3fn_all.dat" % z, i4(*shape) + c.astype("<f4").tobytes("F")))
            elif self.kind == "cbin":
                self.files.append(("dT_%.3f.cbin" % z, i4(*shape) + c.astype("<f4").tobytes("C")))
            elif self.kind == "velfiles":
                self.files.append(("%.3fv_all.dat" % z, i4(*shape) + c.astype("<f4").tobytes("F")))
        self.blobs = {os.path.join(self.dir, f): b for f, b in self.files}
        if self.kind == "velfiles":
            self.dfiles = ["%.3fn_all.dat" % z for z in zs]
            for f, a in zip(self.dfiles, self.dens):
                self.blobs[os.path.join(self.dir + "n", f)] = i4(*shape) + a.tobytes("F")
        self.restore()
        self.how = ch.pick(["list", "list", "array", "dir", "text"])
        self.zhow = ch.pick(["name", "name", "list", "array", "file"])
        if self.how == "dir":
            self.zhow = "name"
        self.fail_read = None
        self.reads = 0

    def restore(self):
        for f, b in self.blobs.items():
            self.d.poke(self.d.path(f), b)

    def names(self, sub, files):
        full = [self.d.path(sub, files[i]) for i in self.perm]
        if self.how == "dir":
            return self.d.path(sub)
        if self.how == "text":
            p = self.d.path(sub + ".txt")
            self.d.poke(p, "".join(f + "\n" for f in full).encode())
            return p
        return full if self.how == "list" else np.array(full)

    def redshifts(self):
        z = [self.zs[i] for i in self.perm]
        if self.zhow == "name":
            return None
        if self.zhow == "list":
            return z
        if self.zhow == "file":
            p = self.d.path(self.dir + "-z.txt")
            self.d.poke(p, "".join("%.3f\n" % v for v in z).encode())
            return p
        return np.array(z)

    def truth(self, p_h):
        """Cubes as the reader should deliver them; velocities need the conversion of the box in force."""
        if self.kind != "velfiles":
            return self.cubes
        return [c.astype("f8") * float(p_h(z)) * 8 / a for c, a, z in zip(self.cubes, self.dens, self.zs)]

    def reader(self, key):
        self.reads += 1
        if self.fail_read is not None and self.reads == self.fail_read:
            raise OSError(errno.EIO, "injected")
        return self.cubes[int(os.path.basename(str(key)).split("-")[1])]

    def call(self, t, kw, axis):
        self.reads = 0
        if self.vel:
            kw = {k: v for k, v in kw.items() if k in ("z_low", "z_high")}
            if self.kind == "velfiles":
                return t.make_velocity_lightcone(self.names(self.dir, [f for f, _ in self.files]),
                                                 self.names(self.dir + "n", self.dfiles),
                                                 file_redshifts=self.redshifts(), los_axis=axis, **kw)
            a = {self.zs[i]: self.cubes[i] for i in self.perm}
            return t.make_velocity_lightcone(a, {z: np.ones((self.n,) * 3) for z in a}, los_axis=axis, **kw)
        if self.kind == "dict":
            return t.make_lightcone({self.zs[i]: self.cubes[i] for i in self.perm}, los_axis=axis, **kw)
        if self.kind == "reader":
            names = ["snap-%d" % i for i in self.perm]
            if self.how == "text":
                return t.make_lightcone({self.zs[i]: n for i, n in zip(self.perm, names)}, los_axis=axis,
                                        reading_function=self.reader, **kw)
            return t.make_lightcone(names, file_redshifts=np.array([self.zs[i] for i in self.perm]), los_axis=axis,
                                    reading_function=self.reader, **kw)
        return t.make_lightcone(self.names(self.dir, [f for f, _ in self.files]), file_redshifts=self.redshifts(),
                                los_axis=axis, raw_density=True, **kw)


def verify(ctx, src, res, p, velconv, kw, axis, what):
    lc, z = res
    n = src.n
    box, dnu = (None, None) if src.vel else (kw["box_length_mpc"], kw["depth_mhz"])
    lo, hi, ref = out_redshifts(p, src.zs, kw["z_low"], kw["z_high"], n, box, dnu)
    lim = (min(src.zs), max(src.zs))
    ref = ref[(ref >= lim[0] - 1e-9) & (ref <= lim[1] + 1e-9)]
    z = np.asarray(z, "f8")
    # a slice that falls on an end of the range up to rounding may or may not be there
    same = len(z) == len(ref) and bool(np.allclose(z, ref, rtol=0, atol=2e-7))
    if not same and abs(len(z) - len(ref)) == 1:
        big, small = (ref, z) if len(ref) > len(z) else (z, ref)
        ends = (lo, hi) + lim
        same = any(min(abs(x - e) for e in ends) < 1e-6 and len(small) and np.allclose(part, small, rtol=0, atol=2e-7)
                   for x, part in ((big[0], big[1:]), (big[-1], big[:-1])))
        if same and len(z) != len(ref) and not np.allclose(z[:1], ref[:1], rtol=0, atol=2e-7):
            return      # shifted by one cell of depth at the rounding edge: depth origin is ambiguous
    ctx.check(same, "wrong-redshifts", lambda: "%s: redshift axis %s, expected %s" % (what, z[:6], ref[:6]))
    cubes = src.truth(velconv)
    lc = np.asarray(lc)
    want = ((3,) if src.vel else ()) + (n, n, len(z))
    ctx.check(lc.shape == want, "wrong-shape", lambda: "%s: lightcone %s, expected %s" % (what, lc.shape, want))
    interp = "linear" if src.vel else kw["interpolation"]
    for i in range(len(z)):
        zi = min(z[i], lim[1])
        a, b, pair = expect(cubes, src.zs, zi, i, axis, interp)
        got = lc[..., i].astype("f8")
        tol = 3e-6 * (1 + np.abs(a).max() + np.abs(b).max())
        ok = bool(np.all(got >= a - tol) and np.all(got <= b + tol))
        if ok and pair is not None:
            ok = bool(np.all(np.minimum(abs(got - pair[0]), abs(got - pair[1])) <= tol))
        ctx.check(ok, "wrong-slice", lambda: "%s: slice %d of %d at z=%.4f is not interpolated from its bracketing snapshots at "
                  "depth %d (snapshots at %s)" % (what, i, len(z), z[i], i % n, sorted(src.zs)))


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    d = w.use_disk()
    node = w.spawn("session")
    w.listing_seed = ch.draw(1 << 16)
    for _ in range(ch.draw(3)):
        with node:
            SETTINGS[ch.draw(len(SETTINGS))](node.t2c)
    src = None
    for r in range(1 + ch.draw(3)):
        if src is None or ch.flag(0.6):
            src = Source(ctx, d, r)
        with node:
            t = node.t2c
            p = Params(t.const, t.conv)
            ls, ts = float(t.conv.lscale), float(t.conv.tscale)
            velconv = lambda z: ls / ts * (1 + z) / 1e5
        s = sorted(src.zs)
        kw = dict(z_low=None, z_high=None)
        if ch.flag(0.4):
            kw["z_low"] = ch.pick([s[0] - 0.3, s[0] + 0.013, s[len(s) // 2], s[0]])
        if ch.flag(0.4):
            kw["z_high"] = ch.pick([s[-1] + 0.4, s[-1] - 0.007, s[-1]])
        kw["depth_mhz"] = ch.pick([None, None, 1.3, 4., 9.])
        kw["box_length_mpc"] = ch.pick(BOXES)
        kw["interpolation"] = ch.pick(["linear", "linear", "linear", "step", "sigmoid", "step_cell"])
        axis = ch.draw(3)
        lo = s[0] if kw["z_low"] is None else kw["z_low"]
        hi = s[-1] if kw["z_high"] is None else kw["z_high"]
        if hi <= lo + 1e-3:
            kw["z_low"] = kw["z_high"] = None
        what = "%s%s(%s, redshifts by %s) %s axis %d" % ("velocity " if src.vel else "", src.kind, src.how, src.zhow,
                                                       {k: v for k, v in kw.items() if v is not None}, axis)
        before = [c.copy() for c in src.cubes]
        mode = ch.weighted([(5, "none"), (2, "io"), (1, "torn"), (1, "missing")])
        plan, broken = {}, None
        if src.kind == "dict":
            mode = "none"
        if mode == "io" and src.kind == "reader":
            src.fail_read = 1 + ch.draw(6)
        elif mode == "io":
            d.arm()
            with node:
                try:
                    src.call(node.t2c, kw, axis)
                except Exception:
                    pass            # judged below
            total = max(1, d.nops)
            d.disarm()
            for _ in range(1 + ch.draw(2)):
                plan[ch.draw(total)] = ("err", ch.pick([errno.EIO, errno.EACCES])) if ch.flag(0.6) else ("short", ch.draw(1 << 9))
        elif mode in ("torn", "missing") and src.blobs:
            broken = ch.pick(sorted(src.blobs))
            b = src.blobs[broken]
            if mode == "torn":
                d.poke(d.path(broken), b[:ch.draw(len(b) - 4)])
            else:
                os.unlink(d.path(broken))
            ctx.fault(mode + "_snapshot")
        ctx.log(r, what, mode, broken, sorted(plan.items()))
        ctx.schedule(src.kind, src.how, axis, kw["interpolation"], len(s), mode)
        stall = ch.flag(0.2)
        w.clock.mode = "jumpy" if stall else "tick"
        d.arm(plan)
        err = res = None
        try:
            with node:
                res = src.call(node.t2c, kw, axis)
        except Violation:
            raise
        except Exception as e:
            err = e
        hit = bool(d.fired) or (src.fail_read is not None and src.reads >= src.fail_read)
        d.disarm()
        if src.fail_read is not None and hit:
            ctx.fault("reader_error")
        src.fail_read = None
        if err is not None:
            _, _, ref = out_redshifts(p, src.zs, kw["z_low"], kw["z_high"], src.n, None if src.vel else kw["box_length_mpc"],
                                      None if src.vel else kw["depth_mhz"])
            empty = not np.any((ref >= s[0]) & (ref <= s[-1]))
            if broken is None and not hit and not empty:
                raise Violation("lightcone-failed", "%s: nothing failed, yet %s: %s" % (what, type(err).__name__, err))
        else:
            ok_missing = mode == "missing" and src.how == "dir"     # a smaller snapshot set: nothing was promised
            if not ok_missing:
                verify(ctx, src, res, p, velconv, kw, axis, what)
        if broken is not None:
            src.restore()
        if (broken is not None or hit) and not (err is not None and empty):
            with node:
                res = src.call(node.t2c, kw, axis)
            verify(ctx, src, res, p, velconv, kw, axis, what + ", after a failed read")
        ctx.check(all(eq(a, b) for a, b in zip(src.cubes, before)), "input-changed", lambda: what + ": a snapshot array was changed")
        if src.kind == "dict" and ch.flag(0.2) and err is None:     # the caller reuses the returned array
            res[0][...] = -7
            ctx.check(all(eq(a, b) for a, b in zip(src.cubes, before)), "aliased", lambda: what + ": the result is a view of a snapshot")
    ctx.nontrivial = True
