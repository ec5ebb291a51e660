"""Simulation file kinds: reference bytes (independent of the library), library readers and writers."""
import os
import pickle
import struct

import numpy as np


def shape3(ch, cubic=False, small=6):
    n = 1 + ch.draw(small)
    if cubic:
        return (n, n, n)
    return (n, 1 + ch.draw(small), 1 + ch.draw(small)) if ch.flag(0.8) else (n, n, n)


def field(ctx, shape, dtype="f4", positive=True):
    r = np.random.RandomState(ctx.npseed())
    a = r.uniform(0.01, 5, shape) * 10.0 ** r.randint(-2, 3, shape)
    if not positive:
        a = a * r.choice([-1, 1], shape)
    a = a.astype(dtype)
    if ctx.ch.flag(0.3):
        a = np.asfortranarray(a)
    elif ctx.ch.flag(0.2):
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    return a


def zname(ch):
    return ch.pick([7.059, 9.026, 8.0, 6.418, 12.048, 10.11, 19.5, 6.0, 0.5])


def i4(*v):
    return np.array(v, dtype="<i4").tobytes()


def draw_cut(ch, n):
    """Where an n byte file ends too early: anywhere, near its end, or after a plain fraction of its content (a missing
    component, a cube in half the precision)."""
    k = ch.draw(10)
    if k < 5:
        return ch.draw(n)
    if k < 7:
        return max(0, n - 1 - ch.small(min(40, n)))
    head = ch.pick([0, 12, 20, 24, 28])
    body = max(0, n - head)
    f = ch.pick([(1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (0, 1), (1, 8)])
    return min(n - 1, head + body * f[0] // f[1] + 4 * ch.draw(3) - 4 * (head > 0 and ch.draw(2)))


class Kind:
    """name, fname, data (reference content), blob (bytes of an intact file), exact: no headerless prefix is a file."""
    prefix = None           # (result) -> True if a shorter file legitimately reads as this
    used = None             # what the writing object saved, under another name, just before

    def object(self, o, path):
        if self.used is not None:
            o.write_to_file(path + ".earlier", self.used)
        return o

    def expect(self):
        raise NotImplementedError


def arr_eq(a, b, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol == 0:
        return bool(np.array_equal(a, b))
    return bool(np.all(np.abs(a.astype("f8") - b.astype("f8")) <= tol * (1e-30 + np.abs(b.astype("f8")))))


class Density(Kind):
    def __init__(self, ctx):
        self.a = field(ctx, shape3(ctx.ch))
        self.z = zname(ctx.ch)
        self.fname = "%.3fn_all.dat" % self.z
        self.blob = i4(*self.a.shape) + self.a.astype("<f4").tobytes("F")
        self.cgs = ctx.ch.flag(0.25)
        self.old = not self.cgs and ctx.ch.flag(0.015)
        if self.old:            # no header, always 203 cells, the redshift in the first five characters
            self.z = ctx.ch.pick([7.059, 12.04])
            self.a = ((np.arange(203 ** 3, dtype="f4") * 0.37 + ctx.npseed() % 1000) % 977 + 1).astype("f4").reshape(203, 203, 203)
            self.fname = ("%.3f" % self.z)[:5] + "ntot_all.dat"
            self.blob = self.a.tobytes("F")
        self.via = ctx.ch.draw(3)

    def write(self, t, path):
        if self.cgs:        # values through the documented conversion of the reader's own attribute
            c = t.const.rho_crit_0 * (float(self.a.shape[0]) / float(t.conv.nbox_fine)) ** 3 * t.const.OmegaB
            self.object(t.DensityFile(), path).write_to_file(path, cgs_density=self.a.astype("f8") * c)
        else:
            self.object(t.DensityFile(), path).write_to_file(path, raw_density=self.a, old_format=self.old)

    def resave(self, t, path, new):
        f = t.DensityFile(path, old_format=self.old)
        f.write_to_file(new, raw_density=f.raw_density, old_format=self.old)

    def read(self, t, path):
        if self.via == 2 and not self.old:
            f = t.DensityFile(path)
            a, kind = t.get_data_and_type(f, raw_density=True)
            return {"kind": kind, "a": a, "z": f.z}
        f = t.DensityFile(path, old_format=self.old) if self.via else t.DensityFile()
        if not self.via:
            f.read_from_file(path, old_format=self.old)
        return {"a": f.raw_density, "z": f.z, "mesh": (f.mesh_x, f.mesh_y, f.mesh_z)}

    def ok(self, r):
        return arr_eq(r["a"], self.a, 2e-6 if self.cgs else 0) and abs(r["z"] - self.z) < 1e-6 and \
            tuple(r.get("mesh", self.a.shape)) == self.a.shape and r.get("kind", "density") == "density"


class Clumping(Kind):
    def __init__(self, ctx):
        self.a = field(ctx, shape3(ctx.ch))
        self.z = zname(ctx.ch)
        self.fname = "%.3fc_all.dat" % self.z
        self.blob = i4(*self.a.shape) + self.a.astype("<f4").tobytes("F")

    def write(self, t, path):
        self.object(t.ClumpingFile(), path).write_to_file(path, self.a)

    def resave(self, t, path, new):
        t.ClumpingFile(path).write_to_file(new)

    def read(self, t, path):
        f = t.ClumpingFile(path)
        return {"a": f.raw_clumping, "z": f.z}

    def ok(self, r):
        return arr_eq(r["a"], self.a) and abs(r["z"] - self.z) < 1e-6


class Velocity(Kind):
    def __init__(self, ctx):
        self.a = field(ctx, (3,) + shape3(ctx.ch), positive=False)
        self.z = zname(ctx.ch)
        self.fname = "%.3fv_all.dat" % self.z
        self.blob = i4(*self.a.shape[1:]) + self.a.astype("<f4").tobytes("F")

    def write(self, t, path):
        self.object(t.VelocityFile(), path).write_to_file(path, self.a)

    def resave(self, t, path, new):
        t.VelocityFile(path).write_to_file(new)

    def read(self, t, path):
        f = t.VelocityFile(path)
        return {"a": f.raw_velocity, "z": f.z}

    def ok(self, r):
        return arr_eq(r["a"], self.a) and abs(r["z"] - self.z) < 1e-6


class Xfrac(Kind):
    def __init__(self, ctx):
        ch = ctx.ch
        self.old, self.neutral, self.binary = ch.flag(0.4), ch.flag(0.3), ch.flag(0.4)
        r = np.random.RandomState(ctx.npseed())
        self.a = r.uniform(0, 1, shape3(ch))
        if ch.flag(0.3):
            self.a = np.asfortranarray(self.a)
        if ch.flag(0.2):
            self.a = (self.a > 0.5).astype("f8")
        if ch.flag(0.25):
            self.a = self.a.astype("f4")
        self.z = zname(ch)
        self.fname = "xfrac3d_%.3f.bin" % self.z
        d = (1 - self.a if self.neutral else self.a).astype("<f4" if self.old else "<f8").tobytes("F")
        if self.binary:
            self.blob = i4(*self.a.shape) + d
        else:
            tail = i4(len(d)) if ch.flag(0.5) else b""
            self.blob = i4(12, *self.a.shape) + i4(12, len(d)) + d + ("" if self.old else tail) if not self.old else \
                i4(12, *self.a.shape) + i4(12, len(d)) + d
        self.via = ch.flag(0.3) and not (self.old or self.neutral or self.binary)

    def kw(self):
        return dict(old_format=self.old, neutral=self.neutral, binary_format=self.binary)

    def write(self, t, path):
        self.object(t.XfracFile(), path).write_to_file(path, self.a, **self.kw())

    def resave(self, t, path, new):
        f = t.XfracFile(path, **self.kw())
        f.write_to_file(new, f.xi, **self.kw())

    def read(self, t, path):
        if self.via:
            a, kind = t.get_data_and_type(path)
            return {"a": a, "z": self.z if kind == "xfrac" else None}
        f = t.XfracFile(path, **self.kw())
        return {"a": f.xi, "z": f.z}

    def ok(self, r):
        tol = 1.2e-7 if self.old or self.a.dtype == "f4" else 2.3e-16
        return np.shape(r["a"]) == self.a.shape and bool(np.all(np.abs(r["a"] - self.a) <= tol)) and \
            r["z"] is not None and abs(r["z"] - self.z) < 1e-6


class Cbin(Kind):
    def __init__(self, ctx):
        ch = ctx.ch
        self.bits, self.order = ch.pick([32, 64]), ch.pick("CF")
        self.a = field(ctx, shape3(ch), "f4" if self.bits == 32 else "f8", positive=False)
        self.fname = ch.pick(["cube.cbin", "dT_7.0.cbin"])
        self.records = False
        self.blob = i4(*self.a.shape) + self.a.astype("<f%d" % (self.bits // 8)).tobytes(self.order)
        self.via = ch.draw(3)

    def with_records(self, ctx):
        if ctx.ch.flag(0.3):
            self.records = True
            d = self.blob[12:]
            self.blob = i4(12, *self.a.shape) + i4(12, len(d)) + d + i4(len(d))
            self.via = 0
        return self

    def write(self, t, path):
        if self.via == 1:
            t.save_data(path, self.a, bits=self.bits, order=self.order)
        else:
            t.save_cbin(path, self.a, bits=self.bits, order=self.order)

    def read(self, t, path):
        if self.via == 2:
            return t.get_data_and_type(path, cbin_bits=self.bits, cbin_order=self.order)[0]
        return t.read_cbin(path, bits=self.bits, order=self.order, records=self.records)

    def ok(self, r):
        return arr_eq(r, self.a)


class Raw(Kind):
    def __init__(self, ctx):
        ch = ctx.ch
        self.bits, self.order = ch.pick([32, 64]), ch.pick("CF")
        self.a = field(ctx, shape3(ch, cubic=True, small=9), "f4" if self.bits == 32 else "f8", positive=False)
        self.fname = "cube.bin"
        self.blob = self.a.astype("<f%d" % (self.bits // 8)).tobytes(self.order)
        self.via = ch.flag(0.4)

    def write(self, t, path):
        if self.via:
            t.save_data(path, self.a, bits=self.bits, order=self.order)
        else:
            t.save_raw_binary(path, self.a, bits=self.bits, order=self.order)

    def read(self, t, path):
        return t.read_raw_binary(path, bits=self.bits, order=self.order)

    def ok(self, r):
        return arr_eq(r, self.a)

    def cut_ok(self, t):            # a smaller cube is a complete file of this headerless format
        n = t / (self.bits // 8)
        return n == int(n) and round(n ** (1 / 3)) ** 3 == n


class Fits(Kind):
    def __init__(self, ctx):
        ch = ctx.ch
        shape = tuple(1 + ch.draw(9) for _ in range(1 + ch.draw(3)))
        self.a = field(ctx, shape, ch.pick(["f4", "f8"]), positive=False)
        self.fname = "cube.fits"
        cards = ["SIMPLE  =                    T", "BITPIX  =                  -64", "NAXIS   = %20d" % len(shape)]
        cards += ["NAXIS%-3d= %20d" % (i + 1, n) for i, n in enumerate(reversed(shape))]
        cards += ["REDSHIFT= %20s" % "7.059", "END"]
        head = "".join(c.ljust(80) for c in cards)
        data = self.a.astype(">f8").tobytes("C")
        self.blob = head.ljust(-(-len(head) // 2880) * 2880).encode() + data.ljust(-(-len(data) // 2880) * 2880, b"\0")
        self.via = ch.flag(0.4)
        self.header = ch.flag(0.5)
        self.card = ch.flag(0.5)
        self.written = False

    def write(self, t, path):
        h = None
        if self.card:
            from astropy.io import fits
            h = fits.Header()
            h["REDSHIFT"] = 7.059
        self.written = True
        if self.via:
            t.save_data(path, self.a, header=h)
        else:
            t.save_fits(self.a, path, header=h)

    def read(self, t, path):
        r = t.read_fits(path, header=self.header)
        return r if self.header else (r, None)

    def ok(self, r):
        if self.header and (self.card or not self.written) and (r[1] is None or r[1].get("REDSHIFT") != 7.059):
            return False
        return arr_eq(r[0], self.a)


class Dbt(Kind):
    def __init__(self, ctx):
        import io
        self.a = field(ctx, shape3(ctx.ch), ctx.ch.pick(["f4", "f8"]), positive=False)
        self.fname = "dbt_7.059.npy"
        b = io.BytesIO()
        np.save(b, self.a)
        self.blob = b.getvalue()

    def read(self, t, path):
        return t.get_data_and_type(path)

    def ok(self, r):
        return r[1] == "dbt" and arr_eq(r[0], self.a)


class Pickled(Kind):
    def __init__(self, ctx):
        self.a = field(ctx, shape3(ctx.ch), "f8", positive=False)
        self.fname = "cube.pkl"
        self.blob = pickle.dumps(self.a)

    def write(self, t, path):
        t.save_data(path, self.a)

    def read(self, t, path):
        with open(path, "rb") as f:
            return pickle.load(f)

    def ok(self, r):
        return arr_eq(r, self.a)


GRID_MASS = 3037323.865946489       # solar masses, box of 244 Mpc/h


class Sources(Kind):
    def __init__(self, ctx):
        ch = ctx.ch
        n = 1 + ch.draw(8)
        r = np.random.RandomState(ctx.npseed())
        self.mass = ch.weighted([(3, "hm"), (3, "lm"), (2, "both")])
        pos = r.randint(0, 300, (n, 3)).astype("f8")
        m = 10.0 ** r.uniform(7, 12, n)
        if ch.flag(0.3):
            m[ch.draw(n)] *= 1e4
        self.a = np.column_stack([pos, m])
        if self.mass == "both":
            self.a = np.column_stack([self.a, 10.0 ** r.uniform(6, 10, n)])
        self.z = zname(ch)
        self.fname = "%.3f-coarsest_wsubgrid_sources.dat" % self.z
        # one line per source and an empty one, masses of the default box
        rows = ["%d %d %d " % tuple(p[:3] + 1) + ("0.0 " if self.mass == "lm" else "") +
                " ".join("%.10e" % (x / GRID_MASS) for x in p[3:]) + "\n\n" for p in self.a]
        self.blob = ("%d 0.0\n" % n + "".join(rows)).encode()
        self.full = self.blob
        self.reuse = ch.flag(0.3)

    def write(self, t, path):
        f = t.SourceFile(None, mass=self.mass)
        self.object(f, path).write_to_file(path, self.a)

    def resave(self, t, path, new):
        t.SourceFile(path, mass=self.mass).write_to_file(new)

    def read(self, t, path):
        f = t.SourceFile(path, mass=self.mass)
        return {"a": f.sources_list, "z": f.z}

    def ok(self, r):
        return np.shape(r["a"]) == self.a.shape and arr_eq(r["a"][:, :3], self.a[:, :3]) and \
            arr_eq(r["a"][:, 3:], self.a[:, 3:], 1e-5) and abs(r["z"] - self.z) < 1e-6

    def cut_ok(self, t):            # in the digits of the last mass a cut cannot be told from a shorter number
        return t > self.full.rstrip().rfind(b" ")


class Temper(Kind):
    attr, stem = "temper", "Temper3D"

    def __init__(self, ctx):
        ch = ctx.ch
        self.old = ch.flag(0.4)
        self.a = field(ctx, shape3(ch))
        self.z = zname(ch)
        self.fname = "%s_%.3f.bin" % (self.stem, self.z)
        d = self.a.astype("<f4").tobytes("F")
        self.binary = self.attr == "irate" and ch.flag(0.4)
        head = i4(*self.a.shape) if self.binary else i4(12, *self.a.shape) + i4(12, len(d))
        self.blob = head + d + (i4(len(d)) if ch.flag(0.5) and not self.old and not self.binary else b"")

    def read(self, t, path):
        f = t.TemperFile(path, old_format=self.old)
        return {"a": f.temper, "z": f.z}

    def ok(self, r):
        a = np.asarray(r["a"])
        want = self.a
        if self.old and a.ndim == 1:
            want = self.a.flatten("F")
        return arr_eq(a, want) and abs(r["z"] - self.z) < 1e-6


class Irate(Temper):
    attr, stem = "irate", "IonRates3D"

    def read(self, t, path):
        f = t.IonRateFile(path, old_format=self.old, binary_format=self.binary)
        return {"a": f.irate, "z": f.z}


class MeshSize(Kind):
    def __init__(self, ctx):
        ch = ctx.ch
        k = ch.draw(4)
        s = shape3(ch)
        self.s = s
        self.fname = ["xfrac3d_7.059.bin", "7.059n_all.dat", "cube.cbin", "Temper3D_7.059.bin"][k]
        pay = b"\1\2\3\4" * (s[0] * s[1] * s[2])
        self.blob = i4(*s) + pay if k in (1, 2) else i4(12, *s) + i4(12, len(pay)) + pay
        self.head = 12 if k in (1, 2) else 24

    def read(self, t, path):
        return np.asarray(t.get_mesh_size(path))

    def ok(self, r):
        return r.shape == (3,) and tuple(int(x) for x in r) == self.s


class PkdFof(Kind):
    rec = np.dtype([("rPot", "<f4", (3,)), ("minPot", "<f4"), ("rcen", "<f4", (3,)), ("rcom", "<f4", (3,)),
                    ("vcom", "<f4", (3,)), ("angular", "<f4", (3,)), ("inertia", "<f4", (6,)), ("sigma", "<f4"),
                    ("rMax", "<f4"), ("fMass", "<f4"), ("fEnvironDensity0", "<f4"), ("fEnvironDensity1", "<f4"),
                    ("rHalf", "<f4")])

    def __init__(self, ctx):
        n = ctx.ch.draw(7)
        r = np.random.RandomState(ctx.npseed())
        self.a = np.frombuffer(r.uniform(0.1, 1, n * self.rec.itemsize // 4).astype("<f4").tobytes(), self.rec)
        self.fname = "sim.fofstats.0"
        self.blob = self.a.tobytes()
        self.split = ctx.ch.flag(0.3)
        self.arr = ctx.ch.flag(0.4)

    def table(self, a):
        L, m = 50.0, 2.77536627e11 * 50.0 ** 3
        if not len(a):
            return np.zeros((0,))
        return np.column_stack([m * a["fMass"].astype("f8")] + [(a["rPot"][:, j] + a["rcom"][:, j]).astype("f4") * L for j in range(3)])

    def read(self, t, path):
        if self.arr:
            return t.read_pkdgrav_fof_halo_catalogue(path, 50.0)
        return t.Pkdgrav3data(50.0, None, verbose=False).read_fof_data([path, path] if self.split else path)

    def ok(self, r):
        a = np.concatenate([self.a, self.a]) if self.split and not self.arr else self.a
        if self.arr:
            w = self.table(a)
            return np.shape(r) == w.shape and np.allclose(r, w, rtol=1e-5)
        return r.dtype == self.rec and r.tobytes() == a.tobytes()

    def cut_ok(self, t):
        return t % self.rec.itemsize == 0


class PkdDensity(Kind):
    def __init__(self, ctx):
        n = 1 + ctx.ch.draw(7)
        self.n = n
        r = np.random.RandomState(ctx.npseed())
        self.a = r.uniform(0.1, 2, (n, n, n)).astype("<f4")
        self.fname = "sim.den"
        self.blob = self.a.tobytes()
        self.given = ctx.ch.flag(0.5)

    def read(self, t, path):
        return t.read_pkdgrav_density_grid(path, 50.0, self.n if self.given else None)

    def ok(self, r):
        w = self.a.T.astype("f8")
        return np.shape(r) == w.shape and np.allclose(r, w / w.mean() - 1, rtol=1e-4, atol=1e-5)

    def cut_ok(self, t):
        n = t / 4
        return not self.given and n == int(n) and round(n ** (1 / 3)) ** 3 == n


class Tipsy(Kind):
    def __init__(self, ctx):
        ch = ctx.ch
        r = np.random.RandomState(ctx.npseed())
        self.n = [ch.draw(4), 1 + ch.draw(5), ch.draw(3)]
        self.cols = [12, 9, 11]
        self.parts = [r.uniform(-1, 1, (n, c)).astype(">f4") for n, c in zip(self.n, self.cols)]
        self.fname = "sim.00100"
        self.blob = struct.pack(">d6i", 0.25, sum(self.n), 3, *self.n, 0) + b"".join(p.tobytes() for p in self.parts)

    def read(self, t, path):
        d = t.Pkdgrav3data(50.0, 8, verbose=False).read_particles(path)
        return [d[k].to_numpy() for k in ("gas", "dark", "star")] + [dict(d["header"])]

    def ok(self, r):
        return all(np.shape(a)[0] == len(p) and (len(p) == 0 or arr_eq(np.asarray(a, dtype="f8"), p.astype("f8")))
                   for a, p in zip(r, self.parts)) and int(r[3]["N"]) == sum(self.n) and float(r[3]["time"]) == 0.25


def nbody_header(n, z, mass=8.0):
    return struct.pack("<i3fi3f3if", n, 1.0 / (1 + z), 0.1, 0.2, 7, 0.1, 0.2, 0.3, 1, 2, 3, mass)


class Nbody:
    """A CubeP3M particle snapshot over several node directories."""

    def __init__(self, ctx, zmax=9):
        ch = ctx.ch
        self.z = ch.pick([7.059, 9.026, 8.0, 6.418])
        self.nodes = 1 + ch.draw(zmax) if ch.flag(0.8) else 10 + ch.draw(3)
        self.pid = ch.flag(0.7)
        r = np.random.RandomState(ctx.npseed())
        self.n = [ch.draw(6) for _ in range(self.nodes)]
        self.xv = [r.uniform(0, 100, (n, 6)).astype("<f4") for n in self.n]
        if ch.flag(0.3):                # particles may share a place and a velocity
            self.xv = [np.repeat(x[:1], len(x), axis=0) for x in self.xv]
        ids = r.permutation(10 ** 6)[:sum(self.n)].astype("<i8") + 2 ** 40
        self.ids, k = [], 0
        for n in self.n:
            self.ids.append(ids[k:k + n])
            k += n

    def files(self):
        out = {}
        for i in range(self.nodes):
            out["node%d/%.3fxv%d.dat" % (i, self.z, i)] = nbody_header(self.n[i], self.z) + self.xv[i].tobytes("F")
            if self.pid:
                out["node%d/%.3fPID%d.dat" % (i, self.z, i)] = nbody_header(self.n[i], self.z) + self.ids[i].tobytes()
        return out

    def open(self, t, path, node=None):
        return t.NbodyFile(path, z=self.z, node=node, pid_file=self.pid)

    def check(self, f, node=None):
        """None if the reader holds exactly the particles, else what is wrong."""
        sel = range(self.nodes) if node is None else [node]
        xv = np.concatenate([self.xv[i] for i in sel])
        ids = np.concatenate([self.ids[i] for i in sel])
        if len(f.nbody) != len(xv):
            return "%d particles instead of %d" % (len(f.nbody), len(xv))
        if int(f.npart) != len(xv):
            return "npart is %d, %d particles are stored" % (f.npart, len(xv))
        for p, v, i in zip(f.nbody, xv, ids):
            if not np.array_equal(p.pos, v[:3]) or not np.array_equal(p.vel, v[3:]):
                return "position or velocity of particle %d" % i
            if self.pid and int(p.pid) != int(i):
                return "identifier %s instead of %d" % (p.pid, i)
        return None


class HaloP3M:
    def __init__(self, ctx, zmax=5):
        ch = ctx.ch
        self.z = ch.pick([7.059, 9.026, 8.0])
        self.nodes = 1 + ch.draw(zmax) if ch.flag(0.85) else 10 + ch.draw(3)
        self.pid = ch.flag(0.5)
        self.cosm = ch.flag(0.4)
        self.mass_def = ch.pick(["vir", "odc"])
        r = np.random.RandomState(ctx.npseed())
        self.n = [ch.draw(4) for _ in range(self.nodes)]
        self.h = [r.uniform(1, 200, (n, 22)).astype("<f4") for n in self.n]
        if ch.flag(0.3):                # across the edge of the periodic box
            for h in self.h:
                for c in (0, 1, 2, 7, 8, 9):
                    h[:, c] *= r.choice([1, 1, -1], len(h))
        if ch.flag(0.3):                # equal halos are still two halos
            self.h = [np.repeat(h[:1], len(h), axis=0) for h in self.h]
        self.tail = r.randint(0, 255, 50 * 8 + 50 * 6 * 4 if self.pid else 24).astype("u1").tobytes()

    def files(self):
        out = {}
        for i in range(self.nodes):
            out["node%d/%.3fhalo%d.dat" % (i, self.z, i)] = struct.pack("<iff", self.n[i], 200., 130.) + \
                b"".join(h.tobytes() + self.tail for h in self.h[i])
        return out

    def open(self, t, path, node=None):
        return t.HaloCubeP3M(path, z=self.z, node=node, mass_def=self.mass_def, pid_flag=self.pid, cosm_unit=self.cosm)

    def again(self, f, path, node=None):
        f.read_from_file(path, self.z, node, self.mass_def, self.pid, self.cosm)

    def check(self, f, t, node=None):
        sel = range(self.nodes) if node is None else [node]
        h = np.concatenate([self.h[i] for i in sel])
        if len(f.halos) != len(h) or int(f.nhalo) != len(h):
            return "%d halos (nhalo %s) instead of %d" % (len(f.halos), f.nhalo, len(h))
        for o, v in zip(f.halos, h):
            m, rad = (v[3], v[5]) if self.mass_def == "vir" else (v[4], v[6])
            pos, cm, vel, disp = v[:3], v[7:10], v[10:13], np.linalg.norm(v[16:19])
            lang = v[13:16]
            if self.cosm:
                c, k = t.conv, t.const
                pc = lambda x: np.mod(np.asarray(x, "f8") * c.LB / float(c.nbox_fine) * k.h, c.boxsize)
                kms = lambda x: np.asarray(x, "f8") * c.velconvert(self.z)
                msol = lambda x: np.asarray(x, "f8") * c.M_grid * k.solar_masses_per_gram
                pos, cm, vel, disp = pc(pos), pc(cm), kms(vel), kms(disp)
                lang = msol(kms(lang) * c.LB / float(c.nbox_fine)) * k.h ** 2
                m, rad = msol(m) * k.h, rad * c.LB / float(c.nbox_fine) * k.h
            for a, b, name in ((o.pos, pos, "position"), (o.pos_cm, cm, "centre of mass"), (o.vel, vel, "velocity"),
                               (o.l, lang, "angular momentum"), (o.vel_disp, disp, "velocity dispersion"), (o.m, m, "mass"),
                               (o.r, rad, "radius")):
                if not np.allclose(a, b, rtol=1e-4, atol=0):
                    return "%s %s instead of %s" % (name, a, b)
        return columns(f, ("m", "r", "pos", "vel", "vel_disp", "l", "pos_cm"))


def columns(h, names):
    """The columns of a halo catalogue are those of its halos, in order."""
    for n in names:
        a, b = np.asarray(h.get(n)), np.array([getattr(o, n) for o in h.halos])
        if a.shape != b.shape or not np.array_equal(a, b):
            return "column %s is %s instead of %s" % (n, a, b)
    return None


class Fast21(Kind):
    """A bare cube of single-precision numbers."""

    def __init__(self, ctx):
        n = 1 + ctx.ch.draw(6)
        self.a = np.ascontiguousarray(field(ctx, (n, n, n), positive=False))
        self.fname = "delta_T_v3_no_halos_z008.00"
        self.blob = self.a.astype("<f4").tobytes("C")

    def read(self, t, path):
        return t.read_21cmfast_files(path)

    def ok(self, r):
        return arr_eq(r, self.a)

    def cut_ok(self, t):
        n = t / 4
        return n == int(n) and round(n ** (1 / 3)) ** 3 == n

    def shorter(self, r):
        """What a smaller cube with the same first numbers reads as (a read that returns nothing is the end of a file)."""
        return r.size < self.a.size and self.cut_ok(4 * r.size) and r.tobytes() == self.blob[:4 * r.size]


class VelocityOf(Velocity):
    """A velocity file (the momentum of the gas) with the density file that belongs to it."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.world = ctx.world
        self.rho = field(ctx, self.a.shape[1:])

    def read(self, t, path):
        p = os.path.join(os.path.dirname(path), "%.3fn_all.dat" % self.z)
        self.world.disk.poke(p, i4(*self.rho.shape) + self.rho.astype("<f4").tobytes("F"))
        return t.read_c2ray_files(path, file_type="vel", density_file=p), float(t.conv.lscale), float(t.conv.tscale)

    def ok(self, r):
        v, ls, ts = r
        w = self.a.astype("f8") * 8 / self.rho * ls / ts * (1 + self.z) / 1e5
        return np.shape(v) == w.shape and np.allclose(v, w, rtol=1e-4)


WRITABLE = [Density, Clumping, Velocity, Xfrac, Cbin, Raw, Pickled, Sources, Fits]
READABLE = [Density, Clumping, Velocity, Xfrac, Cbin, Raw, Sources, Temper, Irate, MeshSize, PkdFof, PkdDensity, Tipsy, Fits, Dbt, Fast21, VelocityOf]
