"""Parallel analyses: drawn arguments, a call with a number of jobs, comparison."""
import numpy as np


def eq(a, b):
    """Equal up to floating-point rounding; works through containers and object arrays."""
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a, key=str) == sorted(b, key=str) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, type(None), bool)):
        return type(a) is type(b) and a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype == object or y.dtype == object:
        return x.dtype == y.dtype and all(eq(list(p) if isinstance(p, list) else p, list(q) if isinstance(q, list) else q)
                                          for p, q in zip(x.ravel(), y.ravel()))
    if x.dtype.kind not in "biufc" or y.dtype.kind not in "biufc":
        return x.dtype == y.dtype and bool(np.all(x == y))
    s = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 0.
    with np.errstate(all="ignore"):
        return bool(np.allclose(x, y, rtol=1e-9, atol=1e-11 * s, equal_nan=True))


def euler_exact(data, thres, neighbors):
    """Euler characteristic of the periodic binary field, counted cell by cell of the cubical complex."""
    A = np.asarray(data) > thres
    if neighbors not in (6, 4):
        A = ~A
    r = [lambda X, a=a: X & np.roll(X, -1, a) for a in range(3)]
    V = A.sum()
    E = sum(f(A).sum() for f in r)
    F = r[0](r[1](A)).sum() + r[1](r[2](A)).sum() + r[0](r[2](A)).sum()
    C = r[0](r[1](r[2](A))).sum()
    return float(int(V) - int(E) + int(F) - int(C))


def field(ctx, lo=1, hi=5):
    ch = ctx.ch
    shape = tuple(lo + ch.draw(hi - lo + 1) for _ in range(3))
    rng = np.random.RandomState(ctx.npseed())
    kind = ch.draw(5)
    if kind == 0:
        d = rng.rand(*shape)
    elif kind == 1:
        d = (rng.rand(*shape) < 0.85).astype(float)
    elif kind == 2:
        d = (rng.rand(*shape) < 0.15).astype(np.int32)
    elif kind == 3:
        d = np.full(shape, float(ch.draw(2)))
    else:
        d = rng.normal(0.5, 1, shape).astype(np.float32)
    if ch.flag(0.2):
        d = np.asfortranarray(d)
    return d


LAYOUTS = ["AA0.5", "AA1"]


class Euler:
    name = "euler"
    boxes = False

    def __init__(self, ctx, hi=5, lo=1):
        ch = ctx.ch
        self.d = field(ctx, lo, hi)
        self.thres = [0.5, 0.3, 0.][ch.draw(3)]
        self.nb = [6, 26, 4, 18][ch.draw(4)]
        self.backend = ["numpy", "python"][ch.draw(2)]
        self.betti = ch.flag(0.2)

    def call(self, t, n):
        f = t.betti1 if self.betti else t.EulerCharacteristic
        return f(self.d, thres=self.thres, neighbors=self.nb, speed_up=self.backend, verbose=False, n_jobs=n)

    def exact(self, serial):
        return None if self.betti else euler_exact(self.d, self.thres, self.nb)


class UV:
    name = "uv"
    boxes = True

    def __init__(self, ctx):
        ch = ctx.ch
        self.n = 4 + ch.draw(4)
        zs = ch.shuffle([6.5, 7., 7.25, 7.777, 8., 8.4, 9., 10.])[:1 + ch.draw(6)]
        self.zs = zs if ch.flag(0.5) else np.array(zs)
        self.kw = dict(subarray_type=LAYOUTS[ch.draw(2)], total_int_time=1., int_time=[1800., 1200.][ch.draw(2)],
                       declination=[-30., 10.][ch.draw(2)], boxsize=[None, 150., None, 420.][ch.draw(4)],
                       checkpoint=[1, 2, 16, None, 3][ch.draw(5)])

    def call(self, t, n):
        r = t.get_uv_map_lightcone(self.n, self.zs, n_jobs=n, verbose=False, **self.kw)
        return {k: r[k] for k in r if k in ["%.3f" % z for z in self.zs] or k == "Nant"}

    def exact(self, serial):
        return None


class Stamp:
    name = "stamp"
    boxes = True

    def __init__(self, ctx):
        ch = ctx.ch
        self.n = 4 + ch.draw(3)
        self.lag = ch.flag(0.5)
        self.kw = dict(subarray_type=LAYOUTS[ch.draw(2)], total_int_time=1., int_time=[1800., 900., 600., 3600., 700.][ch.draw(5)],
                       declination=[-30., 10.][ch.draw(2)], boxsize=[None, 150., 420.][ch.draw(3)])
        self.z = [7., 8.5, 10.][ch.draw(3)]

    def call(self, t, n):
        f = t.get_full_uv_lagrangian_with_antenna_stamp if self.lag else t.get_full_uv_map_with_antenna_stamp
        return f(self.n, self.z, n_jobs=n, verbose=False, **self.kw)

    def exact(self, serial):
        return None


class Bispec:
    name = "bispectrum"
    boxes = True

    def __init__(self, ctx):
        ch = ctx.ch
        self.d = np.random.RandomState(ctx.npseed()).normal(0, 1, (6 + ch.draw(3),) * 3)
        self.k = ch.flag(0.5)
        self.kw = dict(n_bins=1 + ch.draw(7), box_dims=[100., None, 150.][ch.draw(3)], verbose=False,
                       window=[None, None, "blackmanharris"][ch.draw(3)])
        self.kk = (0.2 + 0.05 * ch.draw(4), 0.2 + 0.05 * ch.draw(4))

    def call(self, t, n):
        b = t.Bispectrum(self.d, box_dims=self.kw["box_dims"], verbose=False)
        if self.k:
            return b.bispectrum_k(n_jobs=n, **self.kw)
        return b.bispectrum_k1k2(self.kk[0], self.kk[1], n_jobs=n, **self.kw)

    def exact(self, serial):
        return None


class Granulo:
    name = "granulometry"
    boxes = False

    def __init__(self, ctx):
        ch = ctx.ch
        n = 8 + ch.draw(5)
        rng = np.random.RandomState(ctx.npseed())
        g = np.indices((n,) * 3)
        d = np.zeros((n,) * 3)
        for _ in range(1 + ch.draw(3)):
            c = rng.randint(0, n, 3)
            r = rng.randint(1, 5)
            d[sum((g[i] - c[i]) ** 2 for i in range(3)) <= r * r] = 1
        self.d = d
        self.sizes = None if ch.flag(0.3) else np.arange(1, 2 + ch.draw(5))

    def call(self, t, n):
        return t.granulometry_CDF(self.d, sizes=None if self.sizes is None else np.array(self.sizes), verbose=False, n_jobs=n)

    def exact(self, serial):
        return None


class Noise:
    name = "noise"
    boxes = True

    def __init__(self, ctx):
        ch = ctx.ch
        self.n = 4 + ch.draw(3)
        self.zs = np.array(sorted(ch.shuffle([7., 7.1, 7.2, 7.35, 7.5, 7.6])[:2 + ch.draw(4)]))
        self.seed = ctx.npseed()
        self.cube = ch.flag(0.3)
        self.kw = dict(subarray_type=LAYOUTS[ch.draw(2)], total_int_time=1., int_time=1800., boxsize=[150., 420.][ch.draw(2)],
                       checkpoint=[1, 2, 16][ch.draw(3)], uv_weighting=["natural", "uniform"][ch.draw(2)])

    def call(self, t, n):
        np.random.seed(self.seed)
        if self.cube:
            return t.noise_cube_lightcone(self.n, 7.3, n_jobs=n, verbose=False, **self.kw)
        return t.noise_lightcone(self.n, self.zs, n_jobs=n, verbose=False, **self.kw)

    def exact(self, serial):
        return None


class AvgMfp:
    """Random rays, drawn from the session's stream: the session's seed decides the result."""
    name = "averaged_mfp"
    boxes = False

    def __init__(self, ctx):
        ch = ctx.ch
        n = 6 + ch.draw(3)
        self.d = (np.random.RandomState(ctx.npseed()).rand(n, n, n) < 0.9).astype(float)
        self.it = 3 + ch.draw(4)
        self.seed = ctx.npseed()
        self.kw = dict(rays_per_point=[8, 1, 20][ch.draw(3)], upper_lim=ch.flag(0.2))

    def call(self, t, n):
        np.random.seed(self.seed)
        return t.averaged_mfp(self.d, boxsize=100., iterations=self.it, verbose=False, n_jobs=n, **self.kw)

    def exact(self, serial):
        return None


class Sizes:
    """Bubble sizes and segmentation functions that take a number of jobs."""
    name = "sizes"
    boxes = False

    def __init__(self, ctx):
        ch = ctx.ch
        n = 8 + ch.draw(5)
        rng = np.random.RandomState(ctx.npseed())
        g = np.indices((n,) * 3)
        d = 0.05 * rng.rand(n, n, n)
        for _ in range(1 + ch.draw(3)):
            c = rng.randint(2, n - 2, 3)
            r = rng.randint(1, 5)
            d[sum((g[i] - c[i]) ** 2 for i in range(3)) <= r * r] += 0.9
        self.d = d
        self.seed = ctx.npseed()
        self.kind = ch.weighted([(3, "_granulometry"), (2, "granulometry_bsd"), (1, "watershed_bsd"), (1, "bubbles_from_kmeans")])

    def call(self, t, n):
        kind = self.kind
        np.random.seed(self.seed)
        if kind == "_granulometry" and not hasattr(t.bubble_stats, kind):
            kind = "granulometry_bsd"
        if kind == "_granulometry":
            return t.bubble_stats._granulometry(self.d > 0.5, verbose=False, n_jobs=n)
        if kind == "bubbles_from_kmeans":
            return t.bubbles_from_kmeans(self.d, upper_lim=False, n_jobs=n, n_clusters=2)
        return getattr(t.bubble_stats, kind)(self.d, xth=0.5, boxsize=100., verbose=False, n_jobs=n)

    def exact(self, serial):
        return None


KINDS = [(4, Euler), (4, UV), (3, Stamp), (3, Bispec), (2, Granulo), (2, Noise), (2, Sizes), (2, AvgMfp)]
JOBS = [2, 3, 4, 5, 8, 1, 13, 30]


def pick_jobs(ch, op):
    n = JOBS[ch.draw(len(JOBS))]
    if op.name in ("euler", "stamp", "bispectrum", "granulometry", "averaged_mfp") and ch.flag(0.2):
        n = -1
    return n
